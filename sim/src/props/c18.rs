//! C18: process metrics survive operating system failures.
use crate::common::*;
use crate::driver::Prop;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metric::MetricKind;
use prometrics::metrics::*;
use std::sync::Mutex;

const GATHER: u16 = 0;
const WRITE: u16 = 1; // file, variant, value
const FAULTS: u16 = 2; // on?
const INC: u16 = 3;
const REG: u16 = 4; // register another counter

const FILES: [&str; 3] = ["/proc/self/limits", "/proc/self/status", "/proc/self/stat"];
const S: i64 = 1_000_000_000;

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C18");
    p.set("v", r.int(0, 1 << 30));
    let n = r.int(2, 9);
    for _ in 0..n {
        match r.weighted(&[8, 3, 1, 1]) {
            0 => p.push(0, GATHER, &[]),
            1 => p.push(0, WRITE, &[r.int(0, 2), r.weighted(&[8, 1, 1]) as i64, r.int(0, 1 << 30)]),
            2 => p.push(0, FAULTS, &[r.int(0, 1)]),
            _ => p.push(0, REG, &[]),
        }
    }
    for t in 1..r.int(1, 3) as usize {
        for _ in 0..r.int(1, 4) {
            p.push(t, if r.chance(3, 4) { INC } else { REG }, &[]);
        }
    }
    p
}

/// What the simulated files contain now: the values to expose, or None if the content is unusable.
#[derive(Clone, Debug, Default)]
struct World {
    max_fds: Option<Option<u64>>,
    fds: Option<u32>,
    stat: Option<(u64, u64, u32, u64, u64)>,
}
fn write(w: &mut World, file: usize, variant: i64, v: i64) {
    let mut r = Rng(v as u64);
    let mut content = String::new();
    match file {
        0 => {
            let soft = if r.chance(1, 6) { None } else { Some(r.pick(&[0, 1, 256, 1024, 1048576, 1073741816])) };
            let f = |x: Option<u64>| x.map_or("unlimited".to_string(), |x| x.to_string());
            content += &format!("{:<26}{:<21}{:<21}{:<10}\n", "Limit", "Soft Limit", "Hard Limit", "Units");
            for (n, u) in [
                ("Max cpu time", "seconds"),
                ("Max file size", "bytes"),
                ("Max data size", "bytes"),
                ("Max stack size", "bytes"),
                ("Max core file size", "bytes"),
                ("Max resident set", "bytes"),
                ("Max processes", "processes"),
                ("Max open files", "files"),
                ("Max locked memory", "bytes"),
                ("Max address space", "bytes"),
                ("Max file locks", "locks"),
                ("Max pending signals", "signals"),
                ("Max msgqueue size", "bytes"),
                ("Max nice priority", ""),
                ("Max realtime priority", ""),
                ("Max realtime timeout", "us"),
            ] {
                let (a, b) = if n == "Max open files" {
                    (soft, Some(4096 + r.below(1 << 20)))
                } else {
                    (if r.chance(1, 2) { None } else { Some(r.below(1 << 40)) }, if r.chance(1, 2) { None } else { Some(r.below(1 << 40)) })
                };
                content += &format!("{:<26}{:<21}{:<21}{:<10}\n", n, f(a), f(b), u);
            }
            w.max_fds = Some(soft);
        }
        1 => {
            let fds = r.pick(&[0u32, 64, 128, 256, 4294967295]);
            content += &format!(
                "Name:\tapp\nUmask:\t0022\nState:\tR (running)\nTgid:\t{0}\nNgid:\t0\nPid:\t{0}\nPPid:\t1\nTracerPid:\t0\nUid:\t0\t0\t0\t0\nGid:\t0\t0\t0\t0\nFDSize:\t{1}\nGroups:\t0 \nNStgid:\t{0}\nNSpid:\t{0}\nNSpgid:\t{0}\nNSsid:\t1\nVmPeak:\t{2:>8} kB\nVmSize:\t{2:>8} kB\nVmRSS:\t{2:>8} kB\nThreads:\t{3}\nSigQ:\t0/127000\nSigPnd:\t0000000000000000\nCapEff:\t0000003fffffffff\nSeccomp:\t0\nCpus_allowed:\tff\nCpus_allowed_list:\t0-7\nMems_allowed:\t00000000,00000001\nMems_allowed_list:\t0\nvoluntary_ctxt_switches:\t{4}\nnonvoluntary_ctxt_switches:\t0\n",
                r.int(1, 99999), fds, r.int(1000, 9999999), r.int(1, 99), r.int(0, 1 << 40)
            );
            w.fds = Some(fds);
        }
        _ => {
            let (ut, st) = (r.pick(&[0, 1, 99, 100, 123456, 1 << 45]), r.pick(&[0, 1, 101, 654321]));
            let (th, vs, rss) = (r.pick(&[1u32, 2, 8, 30000]), r.below(1 << 47), r.pick(&[0, 1, 777, 1 << 35]));
            let cmd = r.pick(&["app", "a b", "a) R (x", "()"]);
            content += &format!("{} ({}) R 1 2 3 34816 7 4194304 11 12 13 14 {} {} 5 6 20 0 {} 0 {} {} {} 18446744073709551615", r.int(1, 99999), cmd, ut, st, th, r.below(1 << 40), vs, rss);
            content += " 4194304 4238788 140736732169600 0 0 0 0 4096 134685442 0 0 0 17 3 0 0 0 0 0 6336016 6337300 33959936 140736732172311 140736732172333 140736732172333 140736732176368 0\n";
            w.stat = Some((ut, st, th, vs, rss));
        }
    }
    if variant != 0 {
        content = if variant == 1 && file != 1 { String::new() } else { "garbage\n".into() };
        match file {
            0 => w.max_fds = None,
            1 => w.fds = None,
            _ => w.stat = None,
        }
    }
    rt::fs_set(FILES[file], &content);
}

fn exec(p: &'static Plan) {
    let w: &'static Mutex<World> = leak(Mutex::new(World::default()));
    for f in 0..3 {
        write(&mut w.lock().unwrap(), f, 0, p.p("v") + f as i64);
    }
    let g = gatherer();
    let mark = rt::wall_mark();
    let c = sut(ProcessMetricsCollector::new);
    let starts = rt::wall_values(mark);
    let starts: &'static Vec<i64> = leak(starts);
    sut(|| registry(g).register(c));
    let mk = move |name: &str| -> Counter { sut(|| CounterBuilder::new(name).registry(registry(g)).finish().unwrap()) };
    let noise: &'static Counter = leak(mk("noise"));
    let others: &'static Mutex<Vec<(u64, String, Counter)>> = leak(Mutex::new(vec![]));
    let do_gather = move || {
        rt::fs_reset();
        let w = w.lock().unwrap().clone();
        let inv = rt::seq();
        let lo = sut(|| noise.value());
        let fams = views(&gather(g));
        let hi = sut(|| noise.value());
        let n = only(&fams, "noise");
        if !matches!(n.val, Val::Num(v) if lo <= v && v <= hi) {
            rt::fail("other-metric", &format!("op {}: the other counter is {:?}, expected {} to {}", rt::cur_op(), n.val, lo, hi))
        }
        for (ret, n, _) in others.lock().unwrap().iter() {
            if *ret < inv {
                only(&fams, n);
            }
        }
        if rt::fs_open_fds() != 0 {
            rt::fail("descriptor-leak", &format!("op {}: {} descriptors are still open after the gather", rt::cur_op(), rt::fs_open_fds()))
        }
        let faults: Vec<(u32, u32, u32)> = (0..3).map(|i| (rt::fs_count(i, 0), rt::fs_count(i, 1), rt::fs_count(i, 2))).collect();
        let check = |file: usize, name: &str, kind: MetricKind, want: Option<f64>| {
            let name = format!("process_{}", name);
            let got: Vec<&Fam> = fams.iter().filter(|f| f.name == name).collect();
            if got.len() > 1 || got.iter().any(|f| f.series.len() != 1 || f.kind != kind || !f.series[0].labels.is_empty()) {
                rt::fail("series-count", &format!("op {}: {} is gathered as {:?}", rt::cur_op(), name, got))
            }
            let got = got.first().map(|f| match f.series[0].val {
                Val::Num(v) => v,
                _ => f64::NAN,
            });
            let (opens, hard, eintr) = faults[file];
            match (got, want) {
                (Some(v), Some(w)) if (v - w).abs() <= w.abs() * 1e-12 => {
                    if hard > 0 && opens == 1 {
                        rt::fail("stale-value", &format!("op {}: {} is exposed although {} could not be read", rt::cur_op(), name, FILES[file]))
                    }
                }
                (Some(v), w) => rt::fail("wrong-value", &format!("op {}: {} is {} but {} gives {:?}", rt::cur_op(), name, v, FILES[file], w)),
                (None, Some(w)) if hard + eintr == 0 => {
                    rt::fail("metric-missing", &format!("op {}: {} is missing; {} was readable and gives {}", rt::cur_op(), name, FILES[file], w))
                }
                (None, Some(_)) => rt::probe(0),
                _ => {}
            }
        };
        let stat = |f: &dyn Fn((u64, u64, u32, u64, u64)) -> f64| w.stat.map(f);
        let (tck, page) = unsafe { (libc::sysconf(libc::_SC_CLK_TCK) as f64, libc::sysconf(libc::_SC_PAGESIZE) as f64) };
        check(0, "max_fds", MetricKind::Gauge, w.max_fds.unwrap_or(None).map(|v| v as f64));
        check(1, "open_fds", MetricKind::Gauge, w.fds.map(f64::from));
        check(2, "cpu_seconds_total", MetricKind::Counter, stat(&|s| (s.0 + s.1) as f64 / tck));
        check(2, "threads_total", MetricKind::Gauge, stat(&|s| f64::from(s.2)));
        check(2, "virtual_memory_bytes", MetricKind::Gauge, stat(&|s| s.3 as f64));
        check(2, "resident_memory_bytes", MetricKind::Gauge, stat(&|s| s.4 as f64 * page));
        // the start time comes from the clock
        match fams.iter().find(|f| f.name == "process_start_time_seconds") {
            Some(_) => {
                let s = only(&fams, "process_start_time_seconds");
                if !matches!(s.val, Val::Num(v) if starts.iter().any(|t| (v - *t as f64 / 1e9).abs() <= 1.0)) {
                    rt::fail("wrong-value", &format!("op {}: process_start_time_seconds is {:?}, the collector was made at {:?} ns", rt::cur_op(), s.val, starts))
                }
            }
            None => {
                if faults[2].1 + faults[2].2 == 0 && w.stat.is_some() && starts.iter().all(|t| *t >= 0) {
                    rt::fail("metric-missing", &format!("op {}: process_start_time_seconds is missing", rt::cur_op()))
                }
            }
        }
    };
    run_plan(p, move |_t, o| match o.k {
        GATHER => do_gather(),
        WRITE => write(&mut w.lock().unwrap(), o.a[0] as usize, o.a[1], o.a[2]),
        FAULTS => rt::set_faults(o.a[0] != 0),
        INC => sut(|| noise.increment()),
        _ => {
            let n = format!("extra{}", o.id);
            let c = mk(&n);
            let s = rt::seq();
            others.lock().unwrap().push((s, n, c));
        }
    });
    rt::set_faults(false);
    for f in 0..3 {
        write(&mut w.lock().unwrap(), f, 0, p.p("v") + 10 + f as i64);
    }
    do_gather();
}

fn describe(o: &Op, _setup: bool) -> String {
    match o.k {
        GATHER => "gather".into(),
        WRITE => format!("{} changes to {} {}", FILES[o.a[0] as usize], ["content", "empty/garbage", "garbage"][o.a[1] as usize], o.a[2]),
        FAULTS => format!("faults {}", if o.a[0] != 0 { "on" } else { "off" }),
        INC => "increment another counter".into(),
        _ => "register another counter".into(),
    }
}
fn cfg(r: &mut Rng, _p: &Plan, c: &mut Config) {
    time_cfg(r, c, &[1, 1000, S], &[-1, -S, S, -1000000 * S, 1000000 * S]);
    c.p_fs = r.pick(&[0, 6000, 15000, 30000, 60000]);
    c.p_short = r.pick(&[0, 10000, 50000]);
    if r.chance(1, 3) {
        c.wall0 = r.int(-3 * S, 3 * S);
    }
}

pub const PROP: Prop = Prop {
    id: "C18",
    gen,
    cfg,
    exec,
    describe,
    quick: 80000,
    thorough: 3_000_000,
    rule: "a case is one simulated run: repeated gathers of process metrics from simulated /proc files whose content changes and whose open and read calls fail, are interrupted or return short, while other threads update and register; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &["metrics_left_out"],
    real: "all of prometrics including the process collector, procinfo, its other dependencies and std, compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap, /proc files with open/read/close",
};
