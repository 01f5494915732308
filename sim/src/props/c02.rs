//! C02: counters never go down and never wrap.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metrics::{Counter, CounterBuilder};

const ADD: u16 = 0;
const ADDU: u16 = 1;
const INC: u16 = 2;
const READ: u16 = 3;
const SHOW: u16 = 4;
const GATHER: u16 = 5;
const BURST: u16 = 6;

const TWO63: f64 = 9223372036854775808.0;
const F: [f64; 24] = [
    0.5, 0.1, 1.0, 3.0, 1e-300, 1.5, 4503599627370497.5, 2147483648.0, 4294967295.0, 4294967296.0, 4294967297.0, 1099511627776.0, 9007199254740991.0,
    9007199254740992.0, 9007199254740994.0, 4611686018427387904.0, TWO63, 18446744073709549568.0, 18446744073709551616.0, 1e19, 1e25, 1e300, f64::MAX,
    f64::INFINITY,
];
const U: [u64; 14] = [
    1, 3, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 53, (1 << 53) + 1, 1 << 62, 1 << 63, u64::MAX - 1, u64::MAX, 0,
];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C02");
    let nt = r.int(2, 4) as usize;
    // most runs stay below the magnitudes that swallow everything
    let fmax = r.pick(&[7, 16, 21, 22, 24]) as i64;
    let umax = r.pick(&[7, 11, 13]) as i64;
    let burst = r.chance(1, 12);
    let mut bursts = 0;
    for t in 0..nt {
        for _ in 0..r.int(2, 7) {
            match r.weighted(&[5, 4, 2, 6, 1, 1, if burst { 2 } else { 0 }]) as u16 {
                ADD => p.push(t, ADD, &[if r.chance(1, 2) { r.int(0, fmax - 1) } else { (fmax - 1 - r.int(0, 4)).max(0) }]),
                ADDU => p.push(t, ADDU, &[if r.chance(1, 2) { r.int(0, umax - 1) } else { (umax - 1 - r.int(0, 3)).max(0) }]),
                BURST => {
                    bursts += 1;
                    if bursts <= 2 {
                        let n = r.pick(&[40, 300, 2100]);
                        match r.int(0, 3) {
                            0 => p.push(t, BURST, &[n, 0, r.int(7, 19)]),
                            1 => p.push(t, BURST, &[n, 1, r.int(1, 12)]),
                            2 => p.push(t, BURST, &[n, 2, 0]),
                            _ => p.push(t, BURST, &[n, 0, r.int(0, 5)]),
                        }
                    }
                }
                k => p.push(t, k, &[]),
            }
        }
    }
    p
}

#[derive(Clone, Debug)]
enum E {
    Add(f64),
    Read(f64),
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let g = gatherer();
    let c: &'static Counter = leak(sut(|| CounterBuilder::new("c").registry(registry(g)).finish().unwrap()));
    let addf = move |v: f64| {
        h.rec(E::Add(v), |_| {
            if sut(|| c.add(v).is_err()) {
                fail!("valid-rejected", "add({}) was rejected", v)
            }
        })
    };
    let addu = move |v: u64| h.rec(E::Add(v as f64), |_| sut(|| c.add_u64(v)));
    let read = move || h.rec(E::Read(0.0), |e| *e = E::Read(sut(|| c.value())));
    run_plan(p, move |_t, o| match o.k {
        ADD => addf(F[o.a[0] as usize]),
        ADDU => addu(U[o.a[0] as usize]),
        INC => h.rec(E::Add(1.0), |_| sut(|| c.increment())),
        READ => read(),
        SHOW => h.rec(E::Read(0.0), |e| {
            let s = sut(|| c.to_string());
            match last_value(&s) {
                Some(v) => *e = E::Read(v),
                None => fail!("unparsable", "counter printed as {:?}", s),
            }
        }),
        GATHER => h.rec(E::Read(0.0), |e| match only(&views(&gather(g)), "c").val {
            Val::Num(v) => *e = E::Read(v),
            _ => fail!("wrong-kind", "a counter was gathered as something else"),
        }),
        BURST => {
            for i in 0..o.a[0] {
                if i > 0 {
                    rt::boundary();
                }
                match o.a[1] {
                    0 => addf(F[o.a[2] as usize]),
                    1 => addu(U[o.a[2] as usize]),
                    _ => h.rec(E::Add(1.0), |_| sut(|| c.increment())),
                }
                if i % 16 == 15 {
                    read()
                }
            }
        }
        _ => rt::herr("op"),
    });
    rt::set_op(OP_FINAL as i32);
    read();
    let all = h.all();
    let mut reads: Vec<(u64, u64, f64, i32)> = vec![];
    for r in &all {
        if let E::Read(v) = r.v {
            reads.push((r.inv, r.ret, v, r.op))
        }
    }
    reads.sort_by_key(|r| r.1);
    let mut maxes: Vec<(u64, f64, i32)> = vec![]; // (ret, largest value so far, op)
    for r in &reads {
        let b = maxes.last().map_or((r.1, r.2, r.3), |m| if m.1 > r.2 { (r.1, m.1, m.2) } else { (r.1, r.2, r.3) });
        maxes.push(b);
    }
    for &(inv, ret, v, op) in &reads {
        if v.is_nan() {
            fail!("not-a-number", "the counter was read as NaN by op {}", op)
        }
        let i = maxes.partition_point(|m| m.0 < inv);
        if i > 0 && maxes[i - 1].1 > v {
            fail!("counter-decreased", "op {} read {:e} after op {} had read {:e}", op, v, maxes[i - 1].2, maxes[i - 1].1)
        }
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        for a in &all {
            if let E::Add(x) = a.v {
                if a.ret < inv {
                    lo += x
                }
                if a.inv < ret {
                    hi += x
                }
            }
        }
        if v < lo * (1.0 - 1e-9) {
            fail!("update-lost", "op {} read {:e}, the additions completed before sum up to {:e}", op, v, lo)
        }
        if v > hi * (1.0 + 1e-9) {
            fail!("value-invented", "op {} read {:e}, the additions begun sum up to {:e}", op, v, hi)
        }
    }
}

fn describe(o: &Op, _setup: bool) -> String {
    match o.k {
        ADD => format!("add({:e})", F[o.a[0] as usize]),
        ADDU => format!("add_u64({})", U[o.a[0] as usize]),
        INC => "increment()".into(),
        READ => "value()".into(),
        SHOW => "to_string()".into(),
        GATHER => "gather".into(),
        _ if o.a[1] == 2 => format!("{} times increment()", o.a[0]),
        _ if o.a[1] == 0 => format!("{} times add({:e})", o.a[0], F[o.a[2] as usize]),
        _ => format!("{} times add_u64({})", o.a[0], U[o.a[2] as usize]),
    }
}
fn cfg(_r: &mut Rng, _p: &Plan, _c: &mut Config) {}

pub const PROP: Prop = Prop {
    id: "C02",
    gen,
    cfg,
    exec,
    describe,
    quick: 90000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 2-4 threads add amounts from 1e-300 to infinity (and bursts of up to 2100 additions) to one counter while others read it; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap",
};
