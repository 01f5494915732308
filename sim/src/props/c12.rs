//! C12: gathering merges same-identity metrics losslessly, nothing else.
use super::c05::{expected_bounds, BOUNDS};
use crate::common::*;
use crate::driver::Prop;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use crate::{expo, fail};
use prometrics::metric::MetricKind;
use prometrics::metrics::*;
use std::collections::BTreeMap;
use std::time::Duration;

const UPD: u16 = 0; // metric, bits
const GATHER: u16 = 1; // how it is read
const TS: u16 = 2; // metric, value (i64::MIN: clear)

/// neighbours are picked together: some would be equal if names and values were merely joined
const LABELS: [&[(&str, &str)]; 16] = [
    &[],
    &[("x", "1")],
    &[("x", "2")],
    &[("x", "1"), ("y", "1")],
    &[("y", "1")],
    &[("a", "1"), ("b", "2"), ("c", "3")],
    &[("a", "1"), ("b", "2"), ("c", "4")],
    &[("a", "1,b=2")],
    &[("a", "1"), ("b", "2")],
    &[("a", "1\",b=\"2")],
    &[("a", "1b2")],
    &[("a", "b1")],
    &[("ab", "1")],
    &[("ab", "1 ")],
    &[("X", "1")],
    &[("x", "")],
];
/// from here on, labels made from the number
const WIDE: i64 = LABELS.len() as i64;
const SPECIALS: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
/// bits for the sum of equal values
const UNITS: u32 = 5;
const NAMES: [&str; 4] = ["a", "b", "ab", "a_"];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C12");
    let nm = r.int(1, 8);
    let (nn, nk, nl) = (r.int(1, 3), r.int(1, 4), r.int(1, 4));
    let k0 = r.int(0, 3);
    let l0 = r.int(0, WIDE - 1);
    for _ in 0..nm {
        // name (and namespace), kind, labels, bounds
        let name = r.int(0, nn) + if r.chance(1, 6) { 16 } else { 0 };
        p.obj(0, &[name, (k0 + r.int(0, nk - 1)) % 4, (l0 + r.int(0, nl - 1)) % WIDE, r.int(0, BOUNDS.len() as i64 - 1)]);
    }
    let mut nm = nm;
    if r.chance(1, 4) {
        // there were earlier gathers, with other labels (1), before some of them were registered (2), with metrics that are gone now (3)
        p.set("past", r.int(1, 4));
        for o in p.objs.iter_mut() {
            let l = if r.chance(1, 2) { o.a[2] } else { (l0 + r.int(0, nl)) % WIDE };
            o.a[3] |= (l + 1) << 8 | r.pick(&[0, 0, 1, 2, 3]) << 24;
        }
    }
    if r.chance(1, 120) {
        // many metrics: a few per identity or very many per identity
        let n = r.pick(&[20, 40, 70, 140, 280]);
        let wide = r.chance(1, 2);
        let (k, one) = (r.int(0, 3), r.chance(1, 2));
        for i in 0..n {
            let l = if wide { WIDE + r.int(0, n) } else if one { 6 } else { r.int(5, 8) };
            p.obj(0, &[if one { 0 } else { r.int(0, nn) }, if r.chance(3, 4) { k } else { i % 4 }, l, r.int(0, 19)]);
        }
        nm += n;
    }
    if r.chance(1, 10) {
        // a gauge that is not finite: so is the sum it is part of
        if let Some(m) = (0..nm).find(|&m| p.objs[m as usize].a[1] == 1) {
            p.set("special", m + 1);
            p.set("value", r.int(0, 2));
        }
    }
    if r.chance(1, 12) {
        // many labels that all have, or names and values that differ only late
        let mut x = 0;
        if r.chance(1, 2) {
            x |= r.pick(&[1, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 40]) << 8
        }
        for sh in [16, 24, 32] {
            if r.chance(1, 3) {
                x |= r.pick(&[1, 3, 7, 8, 14, 15, 16, 22, 23, 24, 31, 32, 63, 64, 100, 127, 200, 255]) << sh
            }
        }
        p.set("deep", (x != 0 && nm <= 8) as i64);
        if nm <= 8 {
            for o in p.objs.iter_mut() {
                o.a[0] |= x
            }
        }
    }
    let equal = nm <= 8 && p.p("special") == 0 && r.chance(1, 8);
    if equal {
        // every metric begins with the same values, perhaps also with the same timestamp
        p.set("equal", r.int(1, 3));
        p.set("stamp", r.int(0, 1));
    }
    let mut bits: Vec<Bits> = (0..4).map(|_| Bits::new(if equal { UNITS as i32 } else { 0 })).collect();
    let nt = r.int(2, 4) as usize;
    let w: [u32; 3] = r.pick(&[[6, 3, 1], [4, 3, 4], [8, 2, 0]]);
    let mut ts = 0;
    for t in 0..nt {
        for _ in 0..r.int(2, 8) {
            match r.weighted(&w) as u16 {
                UPD => {
                    let m = r.int(0, nm - 1);
                    let k = p.objs[m as usize].a[1] as usize;
                    if let Some(b) = if r.chance(3, 4) { bits[k].int() } else { bits[k].frac() } {
                        p.push(t, UPD, &[m, b as i64])
                    }
                }
                TS => {
                    // each metric's timestamp is written by one thread only
                    let m = r.int(0, nm - 1);
                    if m as usize % nt == t {
                        ts += 1;
                        let v = match r.int(0, 4) {
                            0 => i64::MIN,
                            1 => -ts * 1000 - r.int(0, 9),
                            _ => r.int(0, 50) * 100 + ts,
                        };
                        p.push(t, TS, &[m, v])
                    }
                }
                k => p.push(t, k, &[r.pick(&[0, 0, 1, 1, 2, 3, 4])]),
            }
        }
    }
    p
}

enum M {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
#[derive(Clone, Debug)]
enum E {
    Upd(usize, u64),
    Ts(usize, i64),
    Gather(Vec<Fam>),
}

fn namespaced(o: &Op) -> bool {
    o.a[0] & 16 != 0
}
/// The name without the namespace.
fn plain_name(o: &Op) -> String {
    format!("{}{}", "p".repeat((o.a[0] >> 32 & 255) as usize), NAMES[(o.a[0] & 15) as usize])
}
fn fname(o: &Op) -> String {
    format!("{}{}", if namespaced(o) { "n_" } else { "" }, plain_name(o))
}
fn kind(o: &Op) -> MetricKind {
    [MetricKind::Counter, MetricKind::Gauge, MetricKind::Histogram, MetricKind::Summary][o.a[1] as usize]
}
fn labels(o: &Op) -> Vec<(String, String)> {
    labels_of(o, o.a[2])
}
/// Label set number `l`; in a "deep" plan it comes after many labels that all sets share,
/// or its names or values begin with a long text that all share.
fn labels_of(o: &Op, l: i64) -> Vec<(String, String)> {
    let (deep, ln, lv) = (o.a[0] >> 8 & 255, (o.a[0] >> 16 & 255) as usize, (o.a[0] >> 24 & 255) as usize);
    let mut v: Vec<(String, String)> = (0..deep).map(|i| (format!("A{:02}", i), format!("{}", i))).collect();
    v.extend(short_labels(l).into_iter().map(|(n, x)| (format!("{}{}", "l".repeat(ln), n), format!("{}{}", "v".repeat(lv), x))));
    v
}
fn short_labels(l: i64) -> Vec<(String, String)> {
    if l >= WIDE {
        return vec![("x".into(), format!("v{}", l)), ("y".into(), format!("{}", l % 3))];
    }
    LABELS[l as usize].iter().map(|l| (l.0.to_string(), l.1.to_string())).collect()
}

fn earlier(o: &Op) -> i64 {
    match o.a[3] >> 8 & 0xffff {
        0 => o.a[2],
        l => l - 1,
    }
}
fn past_mode(o: &Op) -> i64 {
    o.a[3] >> 24
}
/// From the earlier labels to the final ones.
fn relabel(m: &mut M, o: &Op) {
    sut(|| {
        let mut l = match m {
            M::C(m) => m.labels_mut(),
            M::G(m) => m.labels_mut(),
            M::H(m) => m.labels_mut(),
            M::S(m) => m.labels_mut(),
        };
        if earlier(o) != o.a[2] {
            if past_mode(o) == 3 {
                l.clear()
            }
            let new = labels(o);
            for (n, v) in &new {
                l.insert(n, v).unwrap()
            }
            for (n, _) in labels_of(o, earlier(o)) {
                if !new.iter().any(|x| x.0 == n) {
                    l.remove(&n)
                }
            }
        }
    })
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let g = gatherer();
    let g2 = gatherer();
    let past = p.p("past");
    let make = move |o: &Op, before: bool| {
                sut(|| {
                    macro_rules! mk {
                        ($b:expr) => {{
                            let mut b = $b;
                            // in reverse: labels are a set, their order must not matter
                            for (n, v) in labels_of(o, if before { earlier(o) } else { o.a[2] }).iter().rev() {
                                b.label(n, v);
                            }
                            if namespaced(o) {
                                b.namespace("n");
                            }
                            let m = b.registry(registry(g)).finish().unwrap();
                            if past > 0 {
                                registry(g2).register(m.collector())
                            }
                            m
                        }};
                    }
                    let n = &plain_name(o);
                    match o.a[1] {
                        0 => M::C(mk!(CounterBuilder::new(n))),
                        1 => M::G(mk!(GaugeBuilder::new(n))),
                        2 => M::H(mk!({
                            let mut b = HistogramBuilder::new(n);
                            b.buckets(BOUNDS[(o.a[3] & 255) as usize].to_vec());
                            b
                        })),
                        _ => M::S(mk!({
                            let mut b = SummaryBuilder::new(n, Duration::from_secs(1 << 40));
                            for q in dense() {
                                b.quantile(q);
                            }
                            b
                        })),
                    }
                })
    };
    let mut ms: Vec<Option<M>> = p.objs.iter().map(|o| if past > 0 && past_mode(o) != 1 { Some(make(o, true)) } else { None }).collect();
    if past > 0 {
        // metrics that will be gone, then gathers, then the others come and the labels change
        let gone: Vec<Option<M>> = p.objs.iter().map(|o| if past_mode(o) == 2 { Some(make(o, true)) } else { None }).collect();
        for _ in 0..(past + 1) / 2 {
            for g in [g, g2] {
                let f = gather(g);
                sut(|| drop(f))
            }
        }
        sut(|| drop(gone));
        for (i, m) in ms.iter_mut().enumerate() {
            if let Some(m) = m {
                relabel(m, &p.objs[i])
            }
        }
        if past % 2 == 0 {
            let f = gather(g);
            sut(|| drop(f))
        }
    }
    for (i, m) in ms.iter_mut().enumerate() {
        if m.is_none() {
            *m = Some(make(&p.objs[i], false))
        }
    }
    let ms: &'static Vec<M> = leak(ms.into_iter().map(|m| m.unwrap()).collect());
    if p.p("special") > 0 {
        if let M::G(g) = &ms[p.p("special") as usize - 1] {
            sut(|| g.set(SPECIALS[p.p("value") as usize]))
        }
    }
    // a second gatherer knows the same metrics in the opposite order
    for m in ms.iter().rev().filter(|_| past == 0) {
        let r = registry(g2);
        sut(|| match m {
            M::C(m) => r.register(m.collector()),
            M::G(m) => r.register(m.collector()),
            M::H(m) => r.register(m.collector()),
            M::S(m) => r.register(m.collector()),
        })
    }
    let do_gather = move |g: Gat, how: i64| -> Vec<Fam> {
        let f = gather(g);
        if how == 2 {
            // a copy, consumed
            let c = sut(|| f.clone());
            sut(|| drop(f));
            let v: Vec<_> = sut(|| c.into_iter().collect());
            return v.iter().map(view).collect();
        }
        if how == 3 {
            let v = sut(|| f.into_vec());
            return v.iter().map(view).collect();
        }
        if how > 0 {
            let t = if how == 1 {
                sut(|| f.to_text())
            } else {
                sut(|| f.into_iter().map(|f| f.to_string()).collect::<String>())
            };
            match expo::parse(&t, true) {
                Ok(v) => v,
                Err(m) => fail!("text-malformed", "{}", m),
            }
        } else {
            views(&f)
        }
    };
    let update = move |m: usize, bits: u64| {
        let v = from_bits(bits);
        h.rec(E::Upd(m, bits), |_| {
            sut(|| match &ms[m] {
                M::C(c) => c.add(v).unwrap(),
                M::G(c) => c.add(v),
                M::H(c) => c.observe(v),
                M::S(c) => c.observe(v),
            })
        })
    };
    let stamp = move |m: usize, v: i64| {
        h.rec(E::Ts(m, v), |_| {
            sut(|| {
                let mut t = match &ms[m] {
                    M::C(c) => c.timestamp_mut(),
                    M::G(c) => c.timestamp_mut(),
                    M::H(c) => c.timestamp_mut(),
                    M::S(c) => c.timestamp_mut(),
                };
                if v == i64::MIN {
                    t.clear()
                } else {
                    t.set(v)
                }
            })
        })
    };
    if p.p("equal") > 0 {
        for m in 0..ms.len() {
            for _ in 0..p.p("equal") {
                update(m, 1 << FRAC_BITS)
            }
            if p.p("stamp") > 0 {
                stamp(m, 25)
            }
        }
    }
    run_plan(p, move |_t, o| match o.k {
        UPD if o.a[0] + 1 == p.p("special") => {}
        UPD => update(o.a[0] as usize, o.a[1] as u64),
        TS => stamp(o.a[0] as usize, o.a[1]),
        GATHER => h.rec(E::Gather(vec![]), |e| *e = E::Gather(do_gather(g, o.a[0]))),
        _ => rt::herr("op"),
    });
    for (g, how) in [(g, 0), (g, 1), (g2, 2), (g2, 4)] {
        h.rec(E::Gather(vec![]), |e| *e = E::Gather(do_gather(g, how)));
    }
    let all = h.all();
    let order = |v: &[Fam]| -> Vec<(String, MetricKind, Vec<Vec<(String, String)>>)> {
        v.iter().map(|f| (f.name.clone(), f.kind, f.series.iter().map(|s| s.labels.clone()).collect())).collect()
    };
    // identity -> members
    let mut ids: BTreeMap<(String, MetricKind, Vec<(String, String)>), Vec<usize>> = BTreeMap::new();
    for (i, o) in p.objs.iter().enumerate() {
        ids.entry((fname(o), kind(o), labels(o))).or_default().push(i);
    }
    let mut first: Option<Vec<(String, MetricKind, Vec<Vec<(String, String)>>)>> = None;
    for r in &all {
        let fams = match &r.v {
            E::Gather(f) => f,
            _ => continue,
        };
        let o = order(fams);
        // the identities expected, each once
        for (i, a) in o.iter().enumerate() {
            if o[..i].iter().any(|b| a.0 == b.0 && a.1 == b.1) {
                fail!("family-twice", "op {}: {} {} appears twice", r.op, a.1, a.0)
            }
            for w in a.2.windows(2) {
                if w[0] == w[1] {
                    fail!("series-twice", "op {}: {} {} has two series with labels {:?}", r.op, a.1, a.0, w[0])
                }
                if w[0] > w[1] {
                    fail!("series-unsorted", "op {}: {} {} has labels {:?} before {:?}", r.op, a.1, a.0, w[0], w[1])
                }
            }
        }
        let plain: Vec<&String> = o.iter().map(|a| &a.0).filter(|n| !n.starts_with("n_")).collect();
        if plain.windows(2).any(|w| w[0] > w[1]) {
            fail!("families-unsorted", "op {}: families in order {:?}", r.op, plain)
        }
        match &first {
            None => first = Some(o.clone()),
            Some(f) => {
                if *f != o {
                    fail!("order-differs", "op {}: the same metrics were gathered as {:?} and as {:?}", r.op, f, o)
                }
            }
        }
        let n: usize = o.iter().map(|a| a.2.len()).sum();
        for gr in ids.keys() {
            if !o.iter().any(|a| a.0 == gr.0 && a.1 == gr.1 && a.2.contains(&gr.2)) {
                fail!("series-missing", "op {}: {} {}{:?} is missing", r.op, gr.1, gr.0, gr.2)
            }
        }
        if n != ids.len() {
            fail!("series-invented", "op {}: {} series, {} identities: {:?}", r.op, n, ids.len(), o)
        }
        for f in fams {
            for s in &f.series {
                let members = &ids[&(f.name.clone(), f.kind, s.labels.clone())];
                check_series(p, &all, r, f, s, members)
            }
        }
    }
}

fn check_series(p: &Plan, all: &[Rec<E>], r: &Rec<E>, f: &Fam, s: &Series, members: &[usize]) {
    let what = format!("{} {}{:?} gathered by op {}", f.kind, f.name, s.labels, r.op);
    let adds: Vec<Contrib> = all
        .iter()
        .filter_map(|x| match x.v {
            E::Upd(m, b) if members.contains(&m) => Some(Contrib { inv: x.inv, ret: x.ret, bits: b, op: x.op }),
            _ => None,
        })
        .collect();
    let sum = |v: f64| {
        if let Err((c, m)) = check_subset(v, r.inv, r.ret, &adds, if p.p("equal") > 0 { UNITS } else { 0 }) {
            fail!(c, "{}: {}", what, m)
        }
    };
    let count = |n: u64, f: &dyn Fn(f64, usize) -> bool, w: &str| {
        let (mut lo, mut hi) = (0, 0);
        for x in all {
            if let E::Upd(m, b) = x.v {
                if members.contains(&m) && f(from_bits(b), m) {
                    lo += (x.ret < r.inv) as u64;
                    hi += (x.inv < r.ret) as u64;
                }
            }
        }
        if n < lo || n > hi {
            fail!("count-wrong", "{}: {} is {}, {} observations had completed and {} begun", what, w, n, lo, hi)
        }
    };
    match &s.val {
        Val::Num(v) if members.iter().any(|&m| m as i64 + 1 == p.p("special")) => {
            let x = SPECIALS[p.p("value") as usize];
            if !same_f64(*v, x) {
                fail!("sum-wrong", "{}: the value is {}, one of its members is {}", what, v, x)
            }
        }
        Val::Num(v) => sum(*v),
        Val::Hist { buckets, count: n, sum: v } => {
            sum(*v);
            count(*n, &|_, _| true, "count");
            let mut exp: Vec<f64> = members.iter().flat_map(|&m| expected_bounds(BOUNDS[(p.objs[m].a[3] & 255) as usize])).collect();
            exp.sort_by(|a, b| a.partial_cmp(b).unwrap());
            exp.dedup();
            if buckets.iter().map(|b| b.0).collect::<Vec<_>>() != exp {
                fail!("bounds-wrong", "{}: bounds {:?}, expected {:?}", what, buckets, exp)
            }
            let mut places = BTreeMap::new();
            for x in all {
                if let E::Upd(m, b) = x.v {
                    if members.contains(&m) {
                        let v = from_bits(b);
                        places.insert((m, b), expected_bounds(BOUNDS[(p.objs[m].a[3] & 255) as usize]).into_iter().find(|x| v <= *x).unwrap());
                    }
                }
            }
            for &(b, n) in buckets {
                count(n, &|v, m| places[&(m, (v * (1u64 << FRAC_BITS) as f64) as u64)] <= b, &format!("bucket {}", b));
            }
        }
        Val::Summ { q, count: n, sum: v } => {
            sum(*v);
            count(*n, &|_, _| true, "count");
            if p.p("equal") > 0 {
                // equal samples have no names: their ranks are checked once all are there
                let bag: Vec<f64> = adds.iter().map(|a| from_bits(a.bits)).collect();
                for &(f, v) in q {
                    if !(if adds.iter().all(|a| a.ret < r.inv) { rank_ok(f, v, &bag) } else { bag.contains(&v) }) {
                        fail!("sample-lost", "{}: quantile {} is {}, the observations are {:?}", what, f, v, bag)
                    }
                }
                if q.is_empty() && !bag.is_empty() {
                    fail!("sample-lost", "{}: no quantiles, the observations are {:?}", what, bag)
                }
            } else {
            let set = match dense_set(q) {
                Ok(s) => s,
                Err(m) => fail!("samples-inconsistent", "{}: {}", what, m),
            };
            for a in &adds {
                let v = from_bits(a.bits);
                if !set.contains(&v) && a.ret < r.inv {
                    fail!("sample-lost", "{}: the quantiles do not show {} observed by op {}", what, v, a.op)
                }
            }
            for v in &set {
                if !adds.iter().any(|a| from_bits(a.bits) == *v && a.inv < r.ret) {
                    fail!("sample-invented", "{}: the quantiles show {}", what, v)
                }
            }
            }
        }
    }
    // the latest timestamp of the members
    let mut cands: Vec<Vec<Option<i64>>> = vec![];
    for &m in members {
        let mut c = vec![None];
        for x in all {
            if let E::Ts(n, t) = x.v {
                if n == m && x.inv < r.ret {
                    let t = if t == i64::MIN { None } else { Some(t) };
                    if x.ret < r.inv {
                        c = vec![t] // one writer: earlier values are certainly overwritten
                    } else {
                        c.push(t)
                    }
                }
            }
        }
        cands.push(c);
    }
    let ok = cands.iter().any(|c| c.contains(&s.ts)) && cands.iter().all(|c| c.iter().any(|t| *t <= s.ts));
    if !ok {
        fail!("timestamp-wrong", "{}: timestamp {:?}, those of the members are {:?}", what, s.ts, cands)
    }
}

fn describe(o: &Op, setup: bool) -> String {
    if setup {
        let past = ["", ", registered late", ", with a twin that is dropped", ", cleared in between"][past_mode(o) as usize];
        return format!("{} {}{:?}{}{}", kind(o), fname(o), labels(o), if earlier(o) != o.a[2] { format!(", earlier {:?}", labels_of(o, earlier(o))) } else { String::new() }, past);
    }
    match o.k {
        UPD => format!("add or observe {} on metric {}", from_bits(o.a[1] as u64), o.a[0]),
        TS if o.a[1] == i64::MIN => format!("clear the timestamp of metric {}", o.a[0]),
        TS => format!("set the timestamp of metric {} to {}", o.a[0], o.a[1]),
        _ => ["gather", "gather().to_text()", "gather, clone, into_iter()", "gather().into_vec()", "gather, into_iter(), to_string()"][o.a[0] as usize].into(),
    }
}
fn cfg(_r: &mut Rng, p: &Plan, c: &mut Config) {
    let n = (p.objs.len() as u32).saturating_sub(8) * (p.nops() as u32 + 5) + if p.p("deep") > 0 { 40 * (p.nops() as u32 + 10) } else { 0 };
    c.cap1 += n * 60;
    c.cap2 += n * 20_000;
}

/// Very many metrics: of few identities, of many.
fn crowd(wide: bool) -> Plan {
    let mut p = Plan::new("C12");
    p.set("huge", 1);
    for i in 0..1500 {
        p.obj(0, &[0, 0, if wide { WIDE + i * 7919 % 1500 } else { 6 + i % 2 }, 0]);
    }
    let mut b = Bits::new(0);
    for m in [0, 1, 700, 1499] {
        let b = b.int().unwrap();
        p.push(0, UPD, &[m, b as i64]);
    }
    p.push(0, GATHER, &[0]);
    p
}
fn crowd1() -> Plan {
    crowd(true)
}
fn crowd2() -> Plan {
    crowd(false)
}

pub const PROP: Prop = Prop {
    id: "C12",
    gen,
    cfg,
    exec,
    describe,
    quick: 32000,
    thorough: 1_500_000,
    rule: "a case is one simulated run: 1-8 metrics (in some runs crowds of up to 280, in fixed scenarios 1500) over a small space of names, kinds and label sets are updated by 2-4 threads which also set timestamps and gather; every gather is decoded completely; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[("crowd-1", crowd1), ("crowd-2", crowd2)],
    stub: "thread scheduler, futex, clocks, heap",
};
