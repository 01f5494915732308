//! C15: label references stay valid while they can be held.
use super::c14::H;
use crate::common::*;
use crate::driver::Prop;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::label::{Label, Labels};
use prometrics::metric::Metrics;
use std::sync::Mutex;

const CHURN: u16 = 0; // metric, how many, base, name
const REM: u16 = 1; // metric, name
const CLR: u16 = 2; // metric
const HOLD: u16 = 3; // metric, source, churn while held, pauses
const DROP: u16 = 4; // metric: drop the shared handle
const GATHER: u16 = 5;

const LN: [&str; 4] = ["a", "bb", "c_long_label_name", "d"];
const KN: [&str; 4] = ["counter", "gauge", "histogram", "summary"];
const SRC: [&str; 5] = ["labels().get()", "labels().iter()", "labels_mut().get()", "labels_mut().iter()", "gathered labels"];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C15");
    let nm = r.int(1, 2);
    for _ in 0..nm {
        p.obj(0, &[r.int(0, 3), r.int(1, 3)]);
    }
    let nt = r.int(2, 4) as usize;
    let big = r.chance(1, 6);
    let huge = r.chance(1, 150);
    if huge {
        p.set("huge", 1);
    }
    for t in 0..nt {
        for _ in 0..r.int(1, 4) {
            let k = r.weighted(&[6, 2, 1, 8, 1, 1]) as u16;
            let m = r.int(0, nm - 1);
            match k {
                CHURN => p.push(t, k, &[m, if huge { r.int(100, 700) } else if big { r.int(5, 40) } else { r.int(1, 3) }, r.int(0, if huge { 5000 } else { 60 }), r.int(0, 3)]),
                HOLD => p.push(t, k, &[m, r.int(0, 4), if r.chance(1, 4) { if big { r.int(1, 40) } else { r.int(1, 4) } } else { 0 }, r.int(1, 6)]),
                _ => p.push(t, k, &[m, r.int(0, 3)]),
            }
        }
    }
    p
}

fn value(n: i64) -> String {
    // sizes vary, so that different allocator size classes are used
    format!("v{}{}", n, "x".repeat((n as usize * 7) % 50))
}
fn churn(h: &H, n: i64, base: i64, name: &str) {
    let mut c = sut(|| h.clone());
    sut(|| {
        let mut l = c.labels_mut();
        for i in 0..n {
            l.insert(name, &value(base + i)).unwrap();
        }
    });
    sut(|| drop(c));
}
struct Held<'a> {
    l: &'a Label,
    n: String,
    v: String,
}
fn hold<'a>(l: &'a Label) -> Held<'a> {
    check(l);
    let (n, v) = sut(|| (l.name().to_string(), l.value().to_string()));
    Held { l, n, v }
}
fn check(l: &Label) {
    rt::check_live_obj(l as *const Label);
    let (n, v) = (l.name(), l.value());
    rt::check_live(n.as_bytes());
    rt::check_live(v.as_bytes());
}
fn recheck(h: &Held, what: &str) {
    check(h.l);
    let (n, v) = (h.l.name(), h.l.value());
    if n != h.n || v != h.v {
        rt::fail("label-changed", &format!("op {}: the label {}={:?} held from {} has become {}={:?}", rt::cur_op(), h.n, h.v, what, n, v))
    }
}
/// Uses the labels through one reference while pausing.
fn use_labels(l: &Labels, iter: bool, pauses: i64, mid: &dyn Fn()) {
    let mut held = vec![];
    if iter {
        let what = "an iterator";
        let mut it = sut(|| l.iter());
        let mut i = 0;
        loop {
            let x = match sut(|| it.next()) {
                Some(x) => hold(x),
                None => break,
            };
            held.push(x);
            if i == 0 {
                mid()
            }
            i += 1;
            rt::yield_now();
            held.iter().for_each(|h| recheck(h, what));
        }
        for w in held.windows(2) {
            if w[0].n >= w[1].n {
                rt::fail("label-changed", &format!("op {}: one iterator returned {} before {}", rt::cur_op(), w[0].n, w[1].n))
            }
        }
        for _ in 0..pauses {
            rt::yield_now();
            held.iter().for_each(|h| recheck(h, what));
        }
    } else {
        for n in LN.iter() {
            if let Some(x) = sut(|| l.get(n)) {
                held.push(hold(x));
                if held[held.len() - 1].n != *n {
                    rt::fail("label-changed", &format!("op {}: get({}) returned the label {}", rt::cur_op(), n, held[held.len() - 1].n))
                }
            }
        }
        mid();
        for _ in 0..pauses {
            rt::yield_now();
            held.iter().for_each(|h| recheck(h, "get"));
        }
    }
    if held.len() > 0 {
        rt::probe(0)
    }
}

fn exec(p: &'static Plan) {
    let g = gatherer();
    let ms: &'static Vec<Mutex<Option<H>>> = leak(
        p.objs
            .iter()
            .enumerate()
            .map(|(i, o)| {
                let l: Vec<(&str, String)> = (0..o.a[1]).map(|j| (LN[j as usize], value(100 + j))).collect();
                Mutex::new(Some(sut(|| H::new(o.a[0], &format!("m{}", i), &l, Some(registry(g))))))
            })
            .collect(),
    );
    run_plan(p, move |_t, o| {
        let m = o.a[0] as usize;
        // a handle of our own; never hold the harness's lock across a call
        let own = || -> Option<H> {
            let c = ms[m].lock().unwrap().take()?;
            let d = sut(|| c.clone());
            let old = ms[m].lock().unwrap().replace(c);
            sut(|| drop(old));
            Some(d)
        };
        match o.k {
            DROP => {
                let c = ms[m].lock().unwrap().take();
                sut(|| drop(c));
            }
            GATHER => {
                let f = gather(g);
                sut(|| drop(f));
            }
            HOLD if o.a[1] == 4 => {
                let f = gather(g);
                let fs: &[prometrics::metric::MetricFamily] = AsRef::as_ref(&f);
                for fam in fs {
                    macro_rules! go {
                        ($v:expr) => {
                            for x in $v {
                                use_labels(x.labels(), o.a[2] % 2 == 0, o.a[3], &|| ())
                            }
                        };
                    }
                    match fam.metrics() {
                        Metrics::Counter(v) => go!(v),
                        Metrics::Gauge(v) => go!(v),
                        Metrics::Histogram(v) => go!(v),
                        Metrics::Summary(v) => go!(v),
                    }
                }
                sut(|| drop(f));
            }
            _ => {
                let mut c = match own() {
                    Some(c) => c,
                    None => return,
                };
                match o.k {
                    CHURN => churn(&c, o.a[1], o.a[2], LN[o.a[3] as usize]),
                    REM => sut(|| c.labels_mut().remove(LN[o.a[1] as usize])),
                    CLR => sut(|| c.labels_mut().clear()),
                    _ => {
                        let d = sut(|| c.clone());
                        let mid = || {
                            if o.a[2] > 0 {
                                churn(&d, o.a[2], 200, LN[(o.a[2] % 4) as usize])
                            }
                        };
                        if o.a[1] < 2 {
                            use_labels(c.labels(), o.a[1] == 1, o.a[3], &mid);
                        } else {
                            let l = sut(|| c.labels_mut());
                            use_labels(&l, o.a[1] == 3, o.a[3], &mid);
                        }
                        sut(|| drop(d));
                    }
                }
                sut(|| drop(c));
            }
        }
    });
    for m in ms {
        let c = m.lock().unwrap().take();
        sut(|| drop(c));
    }
    let f = views(&gather(g));
    if !f.is_empty() {
        rt::fail("metric-kept", &format!("after all handles were dropped {} families are gathered", f.len()))
    }
}

fn describe(o: &Op, setup: bool) -> String {
    if setup {
        return format!("{} with {} labels", KN[o.a[0] as usize], o.a[1]);
    }
    match o.k {
        CHURN => format!("metric {}: insert {} values of {} starting at {}", o.a[0], o.a[1], LN[o.a[3] as usize], o.a[2]),
        REM => format!("metric {}: remove {}", o.a[0], LN[o.a[1] as usize]),
        CLR => format!("metric {}: clear", o.a[0]),
        HOLD => format!("metric {}: hold labels from {} over {} pauses and {} insertions", o.a[0], SRC[o.a[1] as usize], o.a[3], o.a[2]),
        DROP => format!("metric {}: drop the shared handle", o.a[0]),
        _ => "gather".into(),
    }
}
fn cfg(r: &mut Rng, p: &Plan, c: &mut Config) {
    if p.p("huge") > 0 {
        c.p_plain = 0;
        c.cap1 += 300_000;
        c.cap2 += 4_000_000;
        if p.threads[0].iter().any(|o| o.k == HOLD && o.a[2] > 1000) {
            c.cap2 = 1_000_000_000;
        }
    }
    c.alloc_mode = r.chance(1, 2) as i32;
}

/// A label is held while thousands of others take its place.
fn history(source: i64) -> Plan {
    let mut p = Plan::new("C15");
    p.set("huge", 1);
    p.obj(0, &[source % 4, 4]);
    p.push(0, HOLD, &[0, source, 4001, 2]);
    p
}
fn history_get() -> Plan {
    history(0)
}
fn history_iter() -> Plan {
    history(1)
}

pub const PROP: Prop = Prop {
    id: "C15",
    gen,
    cfg,
    exec,
    describe,
    quick: 100000,
    thorough: 3_000_000,
    rule: "a case is one simulated run: 2-4 threads hold labels obtained in every possible way and re-check their memory and content after every pause while other threads modify and drop; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &["labels_held"],
    real: "all of prometrics, atomic_immut, its other dependencies and std, compiled from source and instrumented",
    directed: &[("history-1", history_get), ("history-2", history_iter)],
    stub: "thread scheduler, futex, clocks, heap",
};
