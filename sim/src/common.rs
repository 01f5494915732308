//! Shared helpers for workloads and oracles.
use crate::plan::*;
use crate::rt;
use std::collections::BTreeSet;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Rec<T> {
    pub tid: usize,
    pub op: i32,
    pub inv: u64,
    pub ret: u64,
    pub v: T,
}
/// History of operations stamped with the simulator's global event number.
pub struct Hist<T>(Mutex<Vec<Rec<T>>>);
impl<T: Clone> Hist<T> {
    pub const fn new() -> Self {
        Hist(Mutex::new(Vec::new()))
    }
    pub fn begin(&self, v: T) -> usize {
        let mut g = self.0.lock().unwrap();
        g.push(Rec { tid: rt::tid(), op: rt::cur_op(), inv: rt::seq(), ret: u64::MAX, v });
        g.len() - 1
    }
    pub fn end(&self, i: usize) {
        self.0.lock().unwrap()[i].ret = rt::seq();
    }
    pub fn end_with(&self, i: usize, f: impl FnOnce(&mut T)) {
        let mut g = self.0.lock().unwrap();
        g[i].ret = rt::seq();
        f(&mut g[i].v);
    }
    /// records an operation around `f`, which returns its result
    pub fn rec(&self, v: T, f: impl FnOnce(&mut T)) {
        let mut w = v.clone();
        let i = self.begin(v);
        f(&mut w);
        self.end_with(i, |x| *x = w);
    }
    pub fn all(&self) -> Vec<Rec<T>> {
        self.0.lock().unwrap().clone()
    }
}

pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

/// Is this operation to be called from a destructor while its thread unwinds?
fn unwinds(plan: &Plan, o: &Op) -> bool {
    match plan.p("unwind") {
        0 => false,
        4 => true,
        u => o.id as i64 % 3 == u - 1,
    }
}
/// Calls `f` from a destructor that runs because the thread panics.
pub fn unwinding(f: impl FnOnce()) {
    struct D<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for D<F> {
        fn drop(&mut self) {
            (self.0.take().unwrap())()
        }
    }
    rt::stat(rt::ST_UNWIND, 1);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _d = D(Some(f));
        std::panic::resume_unwind(Box::new(()))
    }));
}
/// Runs the plan's threads; `f(thread, op)` executes one operation.
pub fn run_plan(plan: &'static Plan, f: impl Fn(usize, &'static Op) + Send + Sync + 'static) {
    rt::run_threads(plan.threads.len(), move |t| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for o in &plan.threads[t - 1] {
                rt::set_op(o.id as i32);
                if unwinds(plan, o) {
                    unwinding(|| f(t, o))
                } else {
                    f(t, o)
                }
            }
        }));
        if r.is_err() {
            rt::herr(&format!("harness panic: {}", rt::last_panic()));
        }
    });
    rt::set_op(60000);
}

/// Operation ids used by thread 0 outside the plan.
pub const OP_SETUP: i32 = 0;
pub const OP_FINAL: i32 = 60000;

// ------------------------------------------------------------------ linearizability (Wing-Gong-Lowe)
pub trait Model {
    type S: Clone + Ord;
    type O;
    /// states the object may be in after `op` (with its recorded result); empty: impossible
    fn step(&self, s: &Self::S, op: &Self::O) -> Vec<Self::S>;
}
/// Returns true if the history has a linearization.  Pending operations have ret == u64::MAX and may
/// or may not take effect.
pub fn linearizable<M: Model>(m: &M, init: M::S, h: &[(u64, u64, M::O)]) -> bool {
    let n = h.len();
    assert!(n <= 63);
    let must: u64 = (0..n).filter(|&i| h[i].1 != u64::MAX).fold(0, |a, i| a | 1 << i);
    let mut seen: BTreeSet<(u64, M::S)> = BTreeSet::new();
    let mut stack = vec![(0u64, init)];
    while let Some((mask, s)) = stack.pop() {
        if mask & must == must {
            return true;
        }
        let minret = (0..n).filter(|&i| mask >> i & 1 == 0).map(|i| h[i].1).min().unwrap();
        for i in 0..n {
            if mask >> i & 1 == 0 && h[i].0 < minret {
                for s2 in m.step(&s, &h[i].2) {
                    let key = (mask | 1 << i, s2);
                    if seen.insert(key.clone()) {
                        stack.push(key);
                    }
                }
            }
        }
        if seen.len() > 2_000_000 {
            return true; // undecided within the bound: not reported
        }
    }
    false
}

// ------------------------------------------------------------------ dyadic amounts
pub const FRAC_BITS: i32 = 20;
/// Decodes a value built from unique powers of two; None if it is not a multiple of 2^-20 or out of range.
pub fn dyadic_bits(v: f64) -> Option<u64> {
    let x = v * (1u64 << FRAC_BITS) as f64;
    if x >= 0.0 && x < 9007199254740992.0 && x.fract() == 0.0 {
        Some(x as u64)
    } else {
        None
    }
}
pub fn from_bits(b: u64) -> f64 {
    b as f64 / (1u64 << FRAC_BITS) as f64
}
/// Allocates unique powers of two.
pub struct Bits {
    int: i32,
    frac: i32,
}
impl Bits {
    /// integer amounts start at 2^lo
    pub fn new(lo: i32) -> Bits {
        Bits { int: lo, frac: 1 }
    }
    pub fn int(&mut self) -> Option<u64> {
        if self.int > 31 {
            return None;
        }
        self.int += 1;
        Some(1u64 << (FRAC_BITS + self.int - 1))
    }
    pub fn frac(&mut self) -> Option<u64> {
        if self.frac > FRAC_BITS {
            return None;
        }
        self.frac += 1;
        Some(1u64 << (FRAC_BITS - self.frac + 1))
    }
}

pub struct Contrib {
    pub inv: u64,
    pub ret: u64,
    pub bits: u64,
    pub op: i32,
}
/// Checks that the set of contributions in a value read during [inv, ret] is possible.
/// `unit`: contributions of bits == UNIT_BIT are counted (not unique).  Returns a description of the violation.
pub fn check_subset(v: f64, inv: u64, ret: u64, adds: &[Contrib], unit_width: u32) -> Result<(), (&'static str, String)> {
    let bits = match dyadic_bits(v) {
        Some(b) => b,
        None => return Err(("value-impossible", format!("value {:e} is no sum of the amounts added", v))),
    };
    let unit = 1u64 << FRAC_BITS;
    let umask = ((1u64 << unit_width) - 1) << FRAC_BITS;
    let (mut lo_units, mut hi_units) = (0u64, 0u64);
    let mut rest = bits & !umask;
    for a in adds {
        let done = a.ret < inv;
        let begun = a.inv < ret;
        if a.bits == unit && unit_width > 0 {
            lo_units += done as u64;
            hi_units += begun as u64;
            continue;
        }
        let have = rest & a.bits;
        if have == a.bits {
            if !begun {
                return Err(("value-early", format!("value {} contains the amount {} of op {} which had not begun", v, from_bits(a.bits), a.op)));
            }
        } else if have == 0 {
            if done {
                return Err(("update-lost", format!("value {} lacks the amount {} of op {} which had completed before the read began", v, from_bits(a.bits), a.op)));
            }
        } else {
            return Err(("update-torn", format!("value {} contains only part of the amount {} of op {}", v, from_bits(a.bits), a.op)));
        }
        rest &= !a.bits;
    }
    if rest != 0 {
        return Err(("value-invented", format!("value {} contains {} that nobody added", v, from_bits(rest))));
    }
    let units = (bits & umask) >> FRAC_BITS;
    if units < lo_units {
        return Err(("update-lost", format!("value {} contains {} increments, {} had completed before the read began", v, units, lo_units)));
    }
    if units > hi_units {
        return Err(("value-invented", format!("value {} contains {} increments, only {} had begun", v, units, hi_units)));
    }
    Ok(())
}

/// value of `name{...} value` in a single-line exposition
pub fn last_value(line: &str) -> Option<f64> {
    parse_num(line.split_whitespace().last()?)
}
pub fn parse_num(s: &str) -> Option<f64> {
    match s {
        "+Inf" | "Inf" => Some(f64::INFINITY),
        "-Inf" => Some(f64::NEG_INFINITY),
        "NaN" | "Nan" => Some(f64::NAN),
        _ => s.parse().ok(),
    }
}
pub fn same_f64(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

// ------------------------------------------------------------------ views of a gather
use crate::rt::sut;
use prometrics::metric::{MetricFamily, MetricKind, Metrics};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Num(f64),
    Hist { buckets: Vec<(f64, u64)>, count: u64, sum: f64 },
    Summ { q: Vec<(f64, f64)>, count: u64, sum: f64 },
}
#[derive(Clone, Debug)]
pub struct Series {
    pub labels: Vec<(String, String)>,
    pub ts: Option<i64>,
    pub val: Val,
}
#[derive(Clone, Debug)]
pub struct Fam {
    pub name: String,
    pub help: Option<String>,
    pub kind: MetricKind,
    pub series: Vec<Series>,
}
pub fn labels_of(l: &prometrics::label::Labels) -> Vec<(String, String)> {
    sut(|| l.iter().map(|l| (l.name().to_string(), l.value().to_string())).collect())
}
/// Reads everything a gathered family exposes through its accessors.
pub fn view(f: &MetricFamily) -> Fam {
    let mut series = vec![];
    macro_rules! num {
        ($v:expr) => {
            for m in $v {
                series.push(Series { labels: labels_of(m.labels()), ts: sut(|| m.timestamp().get()), val: Val::Num(sut(|| m.value())) });
            }
        };
    }
    match f.metrics() {
        Metrics::Counter(v) => num!(v),
        Metrics::Gauge(v) => num!(v),
        Metrics::Histogram(v) => {
            for m in v {
                let val = sut(|| Val::Hist {
                    buckets: m.cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count())).collect(),
                    count: m.count(),
                    sum: m.sum(),
                });
                series.push(Series { labels: labels_of(m.labels()), ts: sut(|| m.timestamp().get()), val });
            }
        }
        Metrics::Summary(v) => {
            for m in v {
                let val = sut(|| Val::Summ {
                    q: m.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect(),
                    count: m.count(),
                    sum: m.sum(),
                });
                series.push(Series { labels: labels_of(m.labels()), ts: sut(|| m.timestamp().get()), val });
            }
        }
    }
    Fam { name: sut(|| f.name().to_string()), help: f.help().map(|h| h.to_string()), kind: f.kind(), series }
}
pub fn views(f: &prometrics::metric::MetricFamilies) -> Vec<Fam> {
    AsRef::<[MetricFamily]>::as_ref(f).iter().map(view).collect()
}

// ------------------------------------------------------------------ ranks
/// Is `v` an element of the sorted `s` at a rank fitting quantile `q`: #(<v) <= q*n <= #(<=v)?
pub fn rank_ok(q: f64, v: f64, s: &[f64]) -> bool {
    let n = s.len() as f64;
    let lt = s.iter().filter(|x| **x < v).count() as f64;
    let le = s.iter().filter(|x| **x <= v).count() as f64;
    le > lt && lt <= q * n + 1e-9 && q * n <= le + 1e-9
}
/// quantiles that show every one of up to 64 samples
pub fn dense() -> Vec<f64> {
    (0..64).map(|j| j as f64 / 64.0).collect()
}
/// The set of samples behind a dense quantile result (all samples distinct); Err if it is inconsistent.
pub fn dense_set(q: &[(f64, f64)]) -> Result<Vec<f64>, String> {
    if q.is_empty() {
        return Ok(vec![]);
    }
    if q.len() != 64 {
        return Err(format!("{} quantiles returned, 64 configured", q.len()));
    }
    let mut s: Vec<f64> = q.iter().map(|x| x.1).collect();
    for w in s.windows(2) {
        if !(w[0] <= w[1]) {
            return Err(format!("quantile values are not ascending: {} then {}", w[0], w[1]));
        }
    }
    s.dedup();
    for (j, &(p, v)) in q.iter().enumerate() {
        if p != j as f64 / 64.0 {
            return Err(format!("quantile {} in place of {}", p, j as f64 / 64.0));
        }
        if !rank_ok(p, v, &s) {
            return Err(format!("quantile {} is {} which is not at that rank among {:?} (a sample is duplicated or misplaced)", p, v, s));
        }
    }
    Ok(s)
}

// ------------------------------------------------------------------ gathering
use prometrics::Gatherer;
pub type Gat = &'static Mutex<Gatherer>;
pub fn gatherer() -> Gat {
    leak(Mutex::new(sut(Gatherer::new)))
}
pub fn gather(g: Gat) -> prometrics::metric::MetricFamilies {
    sut(|| g.lock().unwrap().gather())
}
pub fn registry(g: Gat) -> prometrics::Registry {
    sut(|| g.lock().unwrap().registry())
}
/// The only series of the only family called `name`, or a violation.
pub fn only(fs: &[Fam], name: &str) -> Series {
    let v: Vec<&Fam> = fs.iter().filter(|f| f.name == name).collect();
    if v.len() != 1 {
        rt::fail("series-count", &format!("{} families are named {} (1 expected)", v.len(), name));
    }
    if v[0].series.len() != 1 {
        rt::fail("series-count", &format!("family {} has {} series (1 expected)", name, v[0].series.len()));
    }
    v[0].series[0].clone()
}
/// Numbers of the lines `name... value` of an exposition.
pub fn sample_lines(text: &str) -> Vec<(String, f64)> {
    text.lines()
        .filter(|l| !l.starts_with('#') && !l.is_empty())
        .map(|l| match (l.rsplit_once(' '), last_value(l)) {
            (Some((n, _)), Some(v)) => (n.to_string(), v),
            _ => rt::fail("unparsable", &format!("sample line {:?} has no value", l)),
        })
        .collect()
}
/// A schedule-friendly default for properties that depend on time.
pub fn time_cfg(r: &mut Rng, c: &mut rt::Config, t: &[i64], w: &[i64]) {
    c.ntv = t.len().min(8) as i32;
    c.tvals[..c.ntv as usize].copy_from_slice(&t[..c.ntv as usize]);
    c.nwv = w.len().min(8) as i32;
    c.wvals[..c.nwv as usize].copy_from_slice(&w[..c.nwv as usize]);
    c.p_time = r.pick(&[0, 300, 2000, 8000]);
    c.p_wall = r.pick(&[0, 300, 2000, 8000]);
}

// ------------------------------------------------------------------ scale
/// How many threads in a run of many.
pub fn crowd(r: &mut Rng) -> usize {
    match r.int(0, 3) {
        0 => r.int(5, 16) as usize,
        1 | 2 => r.int(17, 20) as usize,
        _ => r.int(33, 66) as usize,
    }
}
/// A rare large size (0: none), so that limits far above the usual handful are crossed as well.
pub fn bulk_size(r: &mut Rng, i: u64) -> i64 {
    if !r.chance(1, 250) {
        return 0;
    }
    // later runs of a deep search grow further
    let max = if i > 200_000 { 17 } else { 13 };
    let e = r.int(6, max);
    r.int((1 << e) - 3, (1 << e) + (1 << (e - 1)))
}
/// The step bounds for a run with `bulk` extra operations.
pub fn allow_bulk(p: &Plan, c: &mut rt::Config) {
    let n = p.p("bulk") as u32;
    c.cap1 += n.saturating_mul(100);
    c.cap2 += n.saturating_mul(2000);
    if n > 1000 {
        c.p_plain = 0;
    }
}

/// Contribution of an addition to a value that is a plain sum: (inv, ret, amount).
pub type Part = (u64, u64, f64);
/// Bounds of a sum read during [inv, ret]: completed parts are in, parts in flight may be.
pub fn sum_range(parts: &[Part], inv: u64, ret: u64) -> (f64, f64) {
    let (mut lo, mut hi) = (0.0, 0.0);
    for &(i, r, a) in parts {
        if r < inv {
            lo += a;
            hi += a;
        } else if i < ret {
            if a < 0.0 {
                lo += a
            } else {
                hi += a
            }
        }
    }
    (lo, hi)
}
