//! C04: in-progress tracking returns to its baseline.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, sut_catch, user, Config};
use prometrics::metrics::{Gauge, GaugeBuilder};

const TRACK: u16 = 0; // a: nesting depth, ending (0 result, 1 panic, 2 inner panic caught between), work, clone?
const READ: u16 = 1;
const SHOW: u16 = 2;
const GATHER: u16 = 3;

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C04");
    p.set("init", r.int(0, 3));
    // rarely many threads, many calls and deep nesting
    let big = r.chance(1, 30);
    let nt = if big && r.chance(1, 2) { r.int(5, 20) } else { r.int(2, 4) } as usize;
    for t in 0..nt {
        for _ in 0..if big { r.int(1, 8) } else { r.int(1, 3) } {
            match r.weighted(&[5, 3, 1, 1]) as u16 {
                TRACK => p.push(t, TRACK, &[if big && r.chance(1, 4) { r.pick(&[9, 17, 35, 70, 140]) } else { r.int(1, 3) }, r.pick(&[0, 0, 1, 2]), r.int(0, 2), r.int(0, 2)]),
                k => p.push(t, k, &[]),
            }
        }
    }
    p
}

#[derive(Clone, Debug)]
enum E {
    Add(f64),
    Read(f64),
}
struct M;
impl Model for M {
    type S = i64; // halves
    type O = E;
    fn step(&self, s: &i64, o: &E) -> Vec<i64> {
        match o {
            E::Add(x) => vec![s + (*x * 2.0) as i64],
            E::Read(v) => {
                if *v * 2.0 == *s as f64 {
                    vec![*s]
                } else {
                    vec![]
                }
            }
        }
    }
}

fn work(c: &Gauge, h: &'static Hist<E>, n: i64) {
    match n {
        1 => rt::yield_now(),
        2 => h.rec(E::Read(0.0), |e| *e = E::Read(sut(|| c.value()))),
        _ => rt::point(),
    }
}
/// One tracked call; returns what the caller saw.
fn track(c: &Gauge, h: &'static Hist<E>, o: &Op, depth: i64) -> Result<i64, i64> {
    let token = o.id as i64 * 1000 + depth;
    let inc = h.begin(E::Add(1.0));
    let dec = std::cell::Cell::new(usize::MAX);
    let entered = std::cell::Cell::new(0);
    let inner_err = std::cell::Cell::new(false);
    let body = || {
        let r = c.track_inprogress(|| {
            user(|| {
                h.end(inc);
                entered.set(entered.get() + 1);
                work(c, h, o.a[2]);
            });
            if depth > 1 {
                // the nested call; its panic is passed on unless the ending says to catch it
                let r = user(|| track(c, h, o, depth - 1));
                match r {
                    Err(t) if o.a[1] == 1 => {
                        user(|| dec.set(h.begin(E::Add(-1.0))));
                        std::panic::panic_any(t)
                    }
                    Err(_) => inner_err.set(true),
                    Ok(_) => {}
                }
            }
            user(|| {
                work(c, h, o.a[2]);
                dec.set(h.begin(E::Add(-1.0)));
            });
            if depth == 1 && o.a[1] != 0 {
                std::panic::panic_any(token)
            }
            token
        });
        r
    };
    let r = sut_catch(body);
    if entered.get() != 1 {
        fail!("closure-calls", "the tracked closure of op {} was called {} times", o.id, entered.get())
    }
    h.end(dec.get());
    match r {
        Ok(v) => {
            if v != token {
                fail!("result-changed", "the tracked closure returned {}, the caller got {}", token, v)
            }
            if o.a[1] == 1 || (o.a[1] == 2 && depth == 1) {
                fail!("panic-swallowed", "the tracked closure of op {} panicked, the caller got a result", o.id)
            }
            Ok(v)
        }
        Err(p) => match p.downcast_ref::<i64>() {
            Some(&t) if t == o.id as i64 * 1000 + 1 && o.a[1] != 0 => Err(t),
            _ => fail!("panic-changed", "the caller of op {} got another panic: {}", o.id, rt::last_panic()),
        },
    }
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let g = gatherer();
    let init = [0.0, 5.0, -3.5, 100.0][p.p("init") as usize];
    let c: &'static Gauge = leak(sut(|| GaugeBuilder::new("g").initial_value(init).registry(registry(g)).finish().unwrap()));
    run_plan(p, move |_t, o| match o.k {
        TRACK => {
            let d = if o.a[3] == 0 { Some(sut(|| c.clone())) } else { None };
            let _ = track(d.as_ref().unwrap_or(c), h, o, o.a[0]);
            if o.a[1] != 0 {
                rt::stat(rt::ST_PANIC, 1)
            }
            sut(|| drop(d));
        }
        READ => h.rec(E::Read(0.0), |e| *e = E::Read(sut(|| c.value()))),
        SHOW => h.rec(E::Read(0.0), |e| {
            let s = sut(|| c.to_string());
            match last_value(&s) {
                Some(v) => *e = E::Read(v),
                None => fail!("unparsable", "gauge printed as {:?}", s),
            }
        }),
        GATHER => h.rec(E::Read(0.0), |e| match only(&views(&gather(g)), "g").val {
            Val::Num(v) => *e = E::Read(v),
            _ => fail!("wrong-kind", "a gauge was gathered as something else"),
        }),
        _ => rt::herr("op"),
    });
    let v = sut(|| c.value());
    if v != init {
        fail!("baseline-lost", "all tracked closures have ended, the gauge is {} instead of {}", v, init)
    }
    let all = h.all();
    for r in &all {
        if let E::Read(v) = r.v {
            let n = |dir: f64, f: &dyn Fn(u64, u64) -> bool| all.iter().filter(|e| matches!(e.v, E::Add(x) if x == dir) && f(e.inv, e.ret)).count() as f64;
            let lo = init + n(1.0, &|_, ret| ret < r.inv) - n(-1.0, &|inv, _| inv < r.ret);
            let hi = init + n(1.0, &|inv, _| inv < r.ret) - n(-1.0, &|_, ret| ret < r.inv);
            if !(lo <= v && v <= hi) {
                fail!("count-wrong", "op {} reads {}, but the number of running closures puts it between {} and {}", r.op, v, lo, hi)
            }
        }
    }
    let hist: Vec<(u64, u64, E)> = all.iter().map(|r| (r.inv, r.ret, r.v.clone())).collect();
    if hist.len() <= 60 && !linearizable(&M, (init * 2.0) as i64, &hist) {
        let mut s = String::new();
        for r in &all {
            s += &format!("\n  [{}..{}] t{} op {}: {:?}", r.inv, r.ret, r.tid, r.op, r.v);
        }
        fail!("count-wrong", "the values read do not equal {} plus the number of running closures:{}", init, s)
    }
}

fn describe(o: &Op, _setup: bool) -> String {
    match o.k {
        TRACK => format!("track_inprogress(depth {}, {})", o.a[0], ["returns", "panics", "innermost panics, caught outside it"][o.a[1] as usize]),
        READ => "value()".into(),
        SHOW => "to_string()".into(),
        _ => "gather".into(),
    }
}
fn cfg(_r: &mut Rng, p: &Plan, c: &mut Config) {
    let n: i64 = p.threads.iter().flatten().map(|o| o.a[0]).sum();
    c.cap2 += n as u32 * 2_000;
}

pub const PROP: Prop = Prop {
    id: "C04",
    gen,
    cfg,
    exec,
    describe,
    quick: 70000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 2-20 threads with nested tracked closures that return or panic, and readers, checked against the number of running closures; non-trivial: a preemption inside a call or a panic occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap; tracked closures are generated",
};
