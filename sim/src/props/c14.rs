//! C14: label maps change atomically (linearizable).
use crate::common::*;
use crate::driver::Prop;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::label::{Labels, LabelsMut};
use prometrics::metrics::*;
use std::collections::BTreeMap;
use std::time::Duration;

const INS: u16 = 0; // name, value
const REM: u16 = 1; // name
const CLR: u16 = 2;
const GET: u16 = 3; // name
const LEN: u16 = 4;
const EMPTY: u16 = 5;
const ITER: u16 = 6;
const SHOW: u16 = 7;
const SNAP: u16 = 8; // clone the map, read it later
const GATHER: u16 = 9;
const TWO: u16 = 10; // one LabelsMut: insert name=value, [look,] remove or insert another name

const KN: [&str; 4] = ["counter", "gauge", "histogram", "summary"];
/// the first five are valid everywhere, "le" and "quantile" in some kinds
const NAMES: [&str; 14] = ["a", "b", "c", "_", "a_1", "le", "quantile", "", "__a", "9a", "a-b", "a b", "é", "a\n"];
/// further valid names (14 and up); many share a prefix or differ by case
const MORE: [&str; 9] = [
    "A",
    "ab",
    "Ab",
    "aB",
    "a1",
    "Z",
    "a_name_of_more_than_sixty_four_characters_which_begins_like_another_",
    "a_name_of_more_than_sixty_four_characters_which_begins_like_another_1",
    "a_name_of_more_than_sixty_four_characters_which_begins_like_another_12",
];
const FIRST_WIDE: i64 = 23;
const WIDE: usize = 48;
fn name(i: i64) -> &'static str {
    let i = i as usize;
    if i < 14 {
        NAMES[i]
    } else if i < FIRST_WIDE as usize {
        MORE[i - 14]
    } else {
        wide()[i - FIRST_WIDE as usize]
    }
}
fn wide() -> &'static [&'static str; WIDE] {
    macro_rules! w {
        ($($x:expr)*) => { [$(concat!("w", $x)),*] };
    }
    const W: [&str; WIDE] = w!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47);
    &W
}

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C14");
    p.set("kind", r.int(0, 3));
    if r.chance(1, 4) {
        p.set("again", r.int(1, 3));
    }
    p.set("twin", r.chance(1, 4) as i64);
    p.set("start", r.int(0, 3));
    let wide = r.chance(1, 20);
    if wide {
        p.set("wide", r.pick(&[5, 6, 7, 13, 14, 15, 16, 28, 29, 31, 32, 47]));
    }
    if r.chance(1, 60) {
        // a long history before the threads start
        p.set("churn", r.pick(&[70, 140, 300, 300, 600, 1100]));
        p.set("range", r.pick(&[3, 17, 40, 70, 140, 280]));
    }
    let cases = r.chance(1, 4);
    let few = r.chance(1, 2);
    let nt = r.int(2, 4) as usize;
    let mut v = 0;
    for t in 0..nt {
        for _ in 0..r.int(1, 16 / nt as i64) {
            let k = r.weighted(&[9, 4, 2, 4, 1, 1, 4, 2, 1, 1, 3]) as u16;
            v += 1;
            let val = if few { r.int(0, 2) } else { v };
            let pick = |r: &mut Rng| {
                if wide && r.chance(1, 2) {
                    FIRST_WIDE + r.int(0, WIDE as i64 - 1)
                } else if cases && r.chance(1, 2) {
                    r.int(14, FIRST_WIDE - 1)
                } else {
                    r.int(0, if few { 1 } else { 4 })
                }
            };
            let name = if r.chance(1, 8) { r.int(5, 13) } else { pick(r) };
            let second = pick(r);
            p.push(t, k, &[name, val, second, r.int(0, 3)]);
        }
    }
    p
}

type M = BTreeMap<String, String>;
#[derive(Clone, Debug)]
enum E {
    Ins(String, String, bool),
    Rem(String),
    Clr,
    Get(String, Option<String>),
    Len(usize),
    Empty(bool),
    Snap(Vec<(String, String)>),
    Show(String),
}
struct Map(usize);
impl Model for Map {
    type S = M;
    type O = E;
    fn step(&self, s: &M, e: &E) -> Vec<M> {
        let mut s = s.clone();
        let ok = match e {
            E::Ins(n, v, ok) => {
                if *ok {
                    s.insert(n.clone(), v.clone());
                }
                *ok == valid(self.0, n)
            }
            E::Rem(n) => {
                s.remove(n);
                true
            }
            E::Clr => {
                s.clear();
                true
            }
            E::Get(n, v) => s.get(n) == v.as_ref(),
            E::Len(n) => s.len() == *n,
            E::Empty(b) => s.is_empty() == *b,
            E::Snap(v) => s.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>() == *v,
            E::Show(t) => format!("{{{}}}", s.iter().map(|(a, b)| format!("{}=\"{}\"", a, b)).collect::<Vec<_>>().join(",")) == *t,
        };
        if ok {
            vec![s]
        } else {
            vec![]
        }
    }
}
fn valid(kind: usize, n: &str) -> bool {
    match NAMES.iter().position(|x| *x == n) {
        Some(i) if i < 5 => true,
        Some(5) => kind != 2,
        Some(6) => kind != 3,
        Some(_) => false,
        None => true,
    }
}

#[derive(Clone)]
pub enum H {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
impl H {
    pub fn labels(&self) -> &Labels {
        match self {
            H::C(m) => m.labels(),
            H::G(m) => m.labels(),
            H::H(m) => m.labels(),
            H::S(m) => m.labels(),
        }
    }
    pub fn labels_mut(&mut self) -> LabelsMut {
        match self {
            H::C(m) => m.labels_mut(),
            H::G(m) => m.labels_mut(),
            H::H(m) => m.labels_mut(),
            H::S(m) => m.labels_mut(),
        }
    }
    pub fn new(kind: i64, name: &str, labels: &[(&str, String)], reg: Option<prometrics::Registry>) -> H {
        H::make(kind, name, labels, reg, None)
    }
    /// With `twin`, the same builder has been used before, for a metric that is given one more label later.
    pub fn make(kind: i64, name: &str, labels: &[(&str, String)], reg: Option<prometrics::Registry>, twin: Option<&str>) -> H {
        macro_rules! mk {
            ($b:expr) => {{
                let mut b = $b;
                for (n, v) in labels {
                    b.label(n, v);
                }
                let mut other = twin.map(|_| b.finish().unwrap());
                if let Some(r) = reg {
                    b.registry(r);
                }
                let m = b.finish().unwrap();
                if let (Some(o), Some(l)) = (other.as_mut(), twin) {
                    o.labels_mut().insert(l, "twin").unwrap()
                }
                m
            }};
        }
        match kind {
            0 => H::C(mk!(CounterBuilder::new(name))),
            1 => H::G(mk!(GaugeBuilder::new(name))),
            2 => H::H(mk!(HistogramBuilder::new(name))),
            _ => H::S(mk!(SummaryBuilder::new(name, Duration::from_secs(60)))),
        }
    }
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let kind = p.p("kind");
    let g = gatherer();
    let mut start: Vec<(&str, String)> = (0..p.p("start")).chain(FIRST_WIDE..FIRST_WIDE + p.p("wide")).map(|i| (name(i), "s".to_string())).collect();
    if p.p("again") > 0 {
        // values that are names of others
        for i in 0..start.len() {
            start[i].1 = start[(i + 1) % start.len()].0.to_string();
        }
    }
    let start = start;
    let mut init: M = start.iter().map(|(n, v)| (n.to_string(), v.clone())).collect();
    // a builder may be given a label several times: the last one counts
    let mut given: Vec<(&str, String)> = vec![];
    for v in 0..p.p("again") {
        given.extend(start.iter().rev().map(|(n, _)| (*n, ["", "z", "s"][v as usize].to_string())));
    }
    given.extend(start.iter().cloned());
    let m: &'static H = leak(sut(|| H::make(kind, "m", &given, Some(registry(g)), if p.p("twin") > 0 { Some(name(0)) } else { None })));
    if p.p("churn") > 0 {
        let mut r = Rng(p.p("churn") as u64 * 1000 + p.p("range") as u64);
        let mut c = sut(|| m.clone());
        let mut l = sut(|| c.labels_mut());
        for i in 0..p.p("churn") {
            let n = format!("x{}", if i < p.p("range") { i } else { r.int(0, p.p("range") - 1) });
            let v = i.to_string();
            if i >= p.p("range") && r.chance(1, 3) {
                sut(|| l.remove(&n));
                init.remove(&n);
            } else {
                if !sut(|| l.insert(&n, &v)).is_ok() {
                    rt::fail("name-check", &format!("inserting {:?} was rejected", n))
                }
                init.insert(n.clone(), v);
            }
            let got = sut(|| m.labels().get(&n).map(|l| l.value().to_string()));
            if got.as_ref() != init.get(&n) || sut(|| m.labels().len()) != init.len() {
                rt::fail("change-lost", &format!("label operation {} alone on {:?}: get finds {:?} among {} labels, should be {:?} among {}", i, n, got, m.labels().len(), init.get(&n), init.len()))
            }
            if i % 50 == 49 && labels_of(m.labels()) != init.clone().into_iter().collect::<Vec<_>>() {
                rt::fail("change-lost", &format!("after {} label operations alone the labels are {:?}, should be {:?}", i, labels_of(m.labels()), init))
            }
        }
        for n in init.keys().cloned().collect::<Vec<_>>() {
            if n.starts_with('x') && (n.len() > 2 || r.chance(1, 2)) && p.p("churn") % 4 != 0 {
                sut(|| l.remove(&n));
                init.remove(&n);
            }
        }
        sut(|| drop(c));
    }
    let ins = move |n: &str, v: &str, l: &mut LabelsMut| {
        h.rec(E::Ins(n.into(), v.into(), valid(kind as usize, n)), |e| {
            *e = E::Ins(n.into(), v.into(), sut(|| l.insert(n, v)).is_ok());
        })
    };
    let read = move |k: u16, n: &str, l: &Labels| match k {
        GET => h.rec(E::Get(n.into(), None), |e| *e = E::Get(n.into(), sut(|| l.get(n).map(|l| l.value().to_string())))),
        LEN => h.rec(E::Len(0), |e| *e = E::Len(sut(|| l.len()))),
        EMPTY => h.rec(E::Empty(false), |e| *e = E::Empty(sut(|| l.is_empty()))),
        ITER => h.rec(E::Snap(vec![]), |e| *e = E::Snap(labels_of(l))),
        _ => h.rec(E::Show(String::new()), |e| *e = E::Show(sut(|| l.to_string()))),
    };
    run_plan(p, move |_t, o| {
        let n = name(o.a[0]);
        let v = o.a[1].to_string();
        match o.k {
            GET | LEN | EMPTY | ITER | SHOW => read(o.k, n, m.labels()),
            SNAP => {
                let mut c = None;
                h.rec(E::Snap(vec![]), |e| {
                    let l = sut(|| m.labels().clone());
                    *e = E::Snap(labels_of(&l));
                    c = Some(l);
                });
                let c = c.unwrap();
                let was = labels_of(&c);
                rt::yield_now();
                if labels_of(&c) != was {
                    rt::fail("copy-changed", &format!("op {}: a copy of the labels changed from {:?} to {:?}", o.id, was, labels_of(&c)))
                }
                sut(|| drop(c));
            }
            GATHER => h.rec(E::Snap(vec![]), |e| {
                let f = views(&gather(g));
                *e = E::Snap(only(&f, "m").labels)
            }),
            _ => {
                let mut c = sut(|| m.clone());
                let mut l = sut(|| c.labels_mut());
                match o.k {
                    INS => ins(n, &v, &mut l),
                    REM => h.rec(E::Rem(n.into()), |_| sut(|| l.remove(n))),
                    CLR => h.rec(E::Clr, |_| sut(|| l.clear())),
                    _ => {
                        ins(n, &v, &mut l);
                        let n2 = name(o.a[2]);
                        match o.a[3] {
                            0 => {}
                            1 => read(ITER, n2, &l),
                            2 => read(GET, n, &l),
                            _ => rt::yield_now(),
                        }
                        if o.a[1] % 2 == 0 {
                            ins(n2, &v, &mut l)
                        } else {
                            h.rec(E::Rem(n2.into()), |_| sut(|| l.remove(n2)))
                        }
                    }
                }
                sut(|| drop(c));
            }
        }
    });
    read(ITER, "", m.labels());
    read(LEN, "", m.labels());
    let all = h.all();
    for r in &all {
        match &r.v {
            E::Ins(n, v, ok) if *ok != valid(kind as usize, n) => {
                rt::fail("name-check", &format!("op {}: inserting {:?}={:?} into a {} was {}", r.op, n, v, KN[kind as usize], if *ok { "accepted" } else { "rejected" }))
            }
            E::Snap(v) if v.windows(2).any(|w| w[0].0 >= w[1].0) => {
                rt::fail("unsorted", &format!("op {} saw the labels {:?}, which are not sorted or repeat a name", r.op, v))
            }
            _ => {}
        }
    }
    let hist: Vec<(u64, u64, E)> = all.iter().map(|r| (r.inv, r.ret, r.v.clone())).collect();
    if !linearizable(&Map(kind as usize), init, &hist) {
        let mut s = String::new();
        for r in &all {
            s += &format!("\n  t{} op {} [{},{}] {:?}", r.tid, r.op, r.inv, r.ret, r.v);
        }
        rt::fail("not-linearizable", &format!("no order of the label operations explains their results:{}", s))
    }
}

fn describe(o: &Op, _setup: bool) -> String {
    let n = name(o.a[0]);
    match o.k {
        INS => format!("insert {:?}={}", n, o.a[1]),
        REM => format!("remove {:?}", n),
        CLR => "clear".into(),
        GET => format!("get {:?}", n),
        LEN => "len".into(),
        EMPTY => "is_empty".into(),
        ITER => "iterate".into(),
        SHOW => "labels().to_string()".into(),
        SNAP => "labels().clone()".into(),
        GATHER => "gather".into(),
        _ => format!("insert {:?}={} then {} {:?}", n, o.a[1], if o.a[1] % 2 == 0 { "insert" } else { "remove" }, name(o.a[2])),
    }
}
fn cfg(_r: &mut Rng, p: &Plan, c: &mut Config) {
    let n = p.p("churn") as u32;
    let w = p.p("range") as u32;
    c.cap2 += n * (60_000 + 1_000 * w);
}

/// Long histories of one map; many labels in one map.
fn history() -> Plan {
    let mut p = Plan::new("C14");
    p.set("huge", 1);
    p.set("churn", 5001);
    p.set("range", 40);
    p.push(0, ITER, &[0]);
    p
}
fn broad() -> Plan {
    let mut p = Plan::new("C14");
    p.set("kind", 2);
    p.set("huge", 1);
    p.set("churn", 1801);
    p.set("range", 1100);
    p.push(0, ITER, &[0]);
    p
}

pub const PROP: Prop = Prop {
    id: "C14",
    gen,
    cfg,
    exec,
    describe,
    quick: 90000,
    thorough: 4_000_000,
    rule: "a case is one simulated run: 2-4 threads perform label operations on clones of one metric; the complete history is searched for a linearization; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, atomic_immut, its other dependencies and std, compiled from source and instrumented",
    directed: &[("history", history), ("broad", broad)],
    stub: "thread scheduler, futex, clocks, heap",
};
