//! Search driver: many seeded runs over worker processes, minimisation, replay, evidence.
use crate::plan::*;
use crate::rt::{self, Choice, Config, RunResult, MAXLOG, NSTAT};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64) -> Plan,
    pub cfg: fn(&mut Rng, &Plan, &mut Config),
    pub exec: fn(&'static Plan),
    pub describe: fn(&Op, bool) -> String,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub probes: &'static [&'static str],
    pub real: &'static str,
    pub stub: &'static str,
    /// fixed scenarios run before the search: (key, violation class if it is a known finding, plan)
    pub directed: &'static [(&'static str, fn() -> Plan)],
}

pub struct Outcome {
    pub status: i32, // 1 ok, 2 violation, 3 harness error
    pub cls: String,
    pub msg: String,
    pub log: Vec<Choice>,
    pub hash: u64,
    pub simtime: u64,
    pub stat: [u64; NSTAT],
}

fn mmap_shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}
pub fn result_area() -> *mut RunResult {
    mmap_shared(std::mem::size_of::<RunResult>()) as *mut RunResult
}
fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

pub static VERBOSE: AtomicU64 = AtomicU64::new(0);

/// Executes one simulated run in a forked child.
pub fn run_child(prop: &Prop, plan: &Plan, cfg: &Config, choices: &[Choice], res: *mut RunResult) -> Outcome {
    unsafe {
        (*res).status = 0;
        (*res).nlog = 0;
        (*res).cls[0] = 0;
        (*res).msg[0] = 0;
        (*res).hash = 0;
        (*res).simtime = 0;
        (*res).stat = [0; NSTAT];
        let pid = libc::fork();
        if pid < 0 {
            return harness("fork failed");
        }
        if pid == 0 {
            let cpu = libc::itimerval {
                it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                it_value: libc::timeval { tv_sec: 20, tv_usec: 0 },
            };
            libc::setitimer(libc::ITIMER_PROF, &cpu, std::ptr::null_mut());
            libc::alarm(240);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            if VERBOSE.load(SeqCst) == 0 {
                let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(fd, 2);
            }
            let plan: &'static Plan = Box::leak(Box::new(plan.clone()));
            rt::install_panic_hook();
            rt::begin(cfg, res, choices);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.exec)(plan)));
            if r.is_err() {
                rt::herr(&format!("harness panic: {}", rt::last_panic()));
            }
            rt::ok();
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                return harness("waitpid failed");
            }
        }
        let r = &*res;
        let mut o = Outcome {
            status: r.status,
            cls: cstr(&r.cls),
            msg: cstr(&r.msg),
            log: r.log[..(r.nlog.max(0) as usize).min(MAXLOG)].to_vec(),
            hash: r.hash,
            simtime: r.simtime,
            stat: r.stat,
        };
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGALRM || s == libc::SIGKILL || s == libc::SIGTERM {
                return harness(&format!("run killed by signal {}", s));
            }
            o.status = 2;
            if s == libc::SIGPROF {
                o.cls = "no-progress".into();
                o.msg = "a call kept running for 20 s of processor time".into();
            } else {
                o.cls = format!("crash-signal-{}", s);
                o.msg = format!("the process was killed by signal {} (memory corruption or abort); last panic: see replay", s);
            }
        } else if o.status == 0 {
            return harness("run ended without a verdict");
        }
        // time which grows with the square of thousands of earlier operations is no hang: such
        // a run is given up; smaller runs tell whether calls end
        if o.status == 2 && o.cls == "no-progress" && (plan.p("bulk") > 2_000 || plan.p("huge") > 0) {
            o.status = 1;
            o.cls = CUT_OFF.into();
        }
        o
    }
}
/// Class of a run with very many operations which was given up.
pub const CUT_OFF: &str = "cut-off";
fn harness(m: &str) -> Outcome {
    Outcome { status: 3, cls: "harness".into(), msg: m.into(), log: vec![], hash: 0, simtime: 0, stat: [0; NSTAT] }
}

pub fn base_cfg(rng: &mut Rng) -> Config {
    let mut c = Config { seed: rng.next(), ..Default::default() };
    c.policy = rng.weighted(&[44, 32, 10, 7, 7]) as i32;
    c.p_switch = rng.pick(&[32768, 13107, 6553, 3277, 1310, 400]);
    if c.policy == 4 {
        c.p_switch = rng.pick(&[13107, 3277, 800]);
    }
    if c.policy == 3 {
        c.p_switch = rng.pick(&[65536, 61440, 32768]);
    }
    c.pct_depth = rng.int(1, 6) as i32;
    c.pct_len = rng.pick(&[20, 50, 120, 300, 800, 2000]);
    c.alloc_mode = rng.chance(1, 4) as i32;
    c.p_plain = rng.chance(1, 10) as u32;
    c.p_spur = if rng.chance(1, 2) { 0 } else { 8000 };
    c.cap1 = 30000;
    c.cap2 = 1_230_000;
    c.mono0 = rng.int(1_000_000_000, 864_000_000_000_000) as u64;
    c.wall0 = 1_600_000_000_000_000_000 + rng.int(0, 200_000_000_000_000_000);
    c.fair_seed = rng.next();
    c
}
/// run numbers from here on denote directed scenarios
pub const DIRECTED: u64 = 1 << 60;
/// checks whose operations do not depend on the thread they run on
const SPREAD: [&str; 12] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C14", "C16", "C17"];
pub fn make_run(prop: &Prop, seed: u64, idx: u64) -> (Plan, Config) {
    let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03);
    for b in prop.id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut rng = Rng(h);
    rng.next();
    if idx >= DIRECTED {
        let plan = (prop.directed[(idx - DIRECTED) as usize].1)();
        let mut cfg = base_cfg(&mut rng);
        (prop.cfg)(&mut rng, &plan, &mut cfg);
        cfg.policy = 2;
        return (plan, cfg);
    }
    let mut plan = (prop.gen)(&mut rng, idx);
    let mut cfg = base_cfg(&mut rng);
    if idx % 16 == 5 {
        plan.set("unwind", 1 + (idx / 16 % 4) as i64);
    }
    if idx % 25 == 11 && SPREAD.contains(&prop.id) {
        // the same operations by many threads
        let n = rng.int(5, 20) as usize;
        let mut threads: Vec<Vec<Op>> = vec![vec![]; n];
        for (i, o) in std::mem::take(&mut plan.threads).into_iter().flatten().enumerate() {
            let t = if i < n { i } else { rng.us(n) };
            threads[t].push(o);
        }
        threads.retain(|t| !t.is_empty());
        plan.threads = threads;
    }
    (prop.cfg)(&mut rng, &plan, &mut cfg);
    if cfg.ntv == 0 && idx % 7 == 3 {
        // time passes and the wall clock is stepped although the property does not speak of it
        crate::common::time_cfg(&mut rng, &mut cfg, &[1_000, 1_000_000, 150_000_000, 1_000_000_000, 11_000_000_000], &[1_000_000, -1_000_000_000, 90_000_000_000, -90_000_000_000_000]);
    }
    (plan, cfg)
}

const HSET: usize = 1 << 22;
#[repr(C)]
struct Shared {
    next: AtomicU64,
    best: AtomicU64,
    done: AtomicU64,
    ops: AtomicU64,
    herr: AtomicU64,
    hcount: AtomicU64,
    cut: AtomicU64,
    nontrivial: AtomicU64,
    simsecs: AtomicU64,
    stat: [AtomicU64; NSTAT],
    statruns: [AtomicU64; NSTAT],
    policy: [AtomicU64; 5],
    herrmsg: [u8; 1024],
    hset: [AtomicU64; HSET],
}
fn hash_insert(s: &Shared, h: u64) -> bool {
    let h = if h == 0 { 1 } else { h };
    let mut i = (h as usize) & (HSET - 1);
    for _ in 0..256 {
        match s.hset[i].compare_exchange(0, h, SeqCst, SeqCst) {
            Ok(_) => {
                s.hcount.fetch_add(1, SeqCst);
                return true;
            }
            Err(v) if v == h => return false,
            _ => i = (i + 1) & (HSET - 1),
        }
    }
    false
}

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub runs: u64,
    pub wall_s: u64,
    pub slow: u64,
    pub jobs: usize,
    pub out: Option<String>,
    pub replays: String,
    pub known: Vec<(String, String, String)>, // (scenario key, class, text) of listed findings of this property
}

pub fn allowed_cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect()
    }
}
pub fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}

pub fn check(prop: &Prop, o: &Opts) -> i32 {
    let t0 = rt::real_ns();
    let sh: &'static mut Shared = unsafe { &mut *(mmap_shared(std::mem::size_of::<Shared>()) as *mut Shared) };
    sh.best.store(u64::MAX, SeqCst);
    let cpus = allowed_cpus();
    let mut pids = vec![];
    for j in 0..o.jobs {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            pin(cpus[j % cpus.len()]);
            let res = result_area();
            loop {
                let idx = sh.next.fetch_add(1, SeqCst);
                if idx >= o.runs || idx > sh.best.load(SeqCst) || (rt::real_ns() - t0) / 1_000_000_000 >= o.wall_s {
                    break;
                }
                let (plan, cfg) = make_run(prop, o.seed, idx);
                let t = rt::real_ns();
                let mut r = run_child(prop, &plan, &cfg, &[], res);
                if r.status == 3 {
                    // killed from outside or starved
                    r = run_child(prop, &plan, &cfg, &[], res);
                }
                let t = (rt::real_ns() - t) / 1_000_000;
                if t >= o.slow || (o.slow < u64::MAX && r.stat[0] > cfg.cap1 as u64 + (cfg.cap2 - cfg.cap1) as u64 / 5) {
                    println!("run {} took {} ms, {} steps (caps {} {}), plan {:?}", idx, t, r.stat[0], cfg.cap1, cfg.cap2, plan.params);
                }
                if r.status == 3 {
                    sh.herr.fetch_add(1, SeqCst);
                    let m = format!("run {}: {}", idx, r.msg);
                    let b = m.as_bytes();
                    let n = b.len().min(1000);
                    let p = sh.herrmsg.as_ptr() as *mut u8;
                    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, n) };
                    break;
                }
                sh.done.fetch_add(1, SeqCst);
                sh.ops.fetch_add(plan.nops() as u64, SeqCst);
                sh.simsecs.fetch_add(r.simtime / 1_000_000_000, SeqCst);
                sh.policy[(cfg.policy as usize).min(4)].fetch_add(1, SeqCst);
                for i in 0..NSTAT {
                    if r.stat[i] != 0 {
                        sh.stat[i].fetch_add(r.stat[i], SeqCst);
                        sh.statruns[i].fetch_add(1, SeqCst);
                    }
                }
                let new = hash_insert(sh, r.hash ^ (plan.nops() as u64).wrapping_mul(0x9E3779B97F4A7C15));
                // non-trivial: something the sequential tests cannot produce really happened
                let faults: u64 = [2usize, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 17, 32].iter().map(|&i| r.stat[i]).sum();
                if new && (faults > 0) {
                    sh.nontrivial.fetch_add(1, SeqCst);
                }
                if r.cls == CUT_OFF {
                    sh.cut.fetch_add(1, SeqCst);
                }
                if r.status == 2 {
                    sh.best.fetch_min(idx, SeqCst);
                }
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if st != 0 {
            sh.herr.fetch_add(1, SeqCst);
        }
    }
    let search_s = (rt::real_ns() - t0) as f64 / 1e9;
    if sh.herr.load(SeqCst) > 0 && sh.best.load(SeqCst) == u64::MAX {
        println!("HARNESS-ERROR property={} {}", prop.id, cstr(&sh.herrmsg));
        return 2;
    }
    let mut rc = 0;
    let mut best = sh.best.load(SeqCst);
    // directed scenarios: a listed finding is reported as such, anything else is a violation
    let mut findings: Vec<String> = vec![];
    for (i, d) in prop.directed.iter().enumerate() {
        let (plan, cfg) = make_run(prop, o.seed, DIRECTED + i as u64);
        let r = run_child(prop, &plan, &cfg, &[], result_area());
        if r.cls == CUT_OFF {
            sh.cut.fetch_add(1, SeqCst);
        }
        match r.status {
            1 => {}
            2 => match o.known.iter().find(|k| k.0 == d.0 && k.1 == r.cls) {
                Some(k) => findings.push(k.2.clone()),
                None => best = best.min(DIRECTED + i as u64),
            },
            _ => {
                println!("HARNESS-ERROR property={} scenario {}: {}", prop.id, d.0, r.msg);
                return 2;
            }
        }
    }
    for f in &findings {
        println!("KNOWN-FINDING: property={} {}", prop.id, f);
    }
    let mut found = None;
    if best != u64::MAX {
        pin(cpus[0]);
        match report(prop, o, best) {
            Ok(r) => {
                found = Some(r);
                rc = 1;
            }
            Err(m) => {
                println!("HARNESS-ERROR property={} run {}: {}", prop.id, best, m);
                return 2;
            }
        }
    }
    let wall = (rt::real_ns() - t0) as f64 / 1e9;
    if let Some(out) = &o.out {
        write_evidence(prop, o, sh, search_s, wall, rc, out);
    }
    if sh.cut.load(SeqCst) > 0 {
        println!("note: {} runs with thousands of earlier operations were given up for their length", sh.cut.load(SeqCst));
    }
    println!(
        "property={} runs={} distinct={} nontrivial={} steps={} simsecs={} search={:.1}s wall={:.1}s",
        prop.id,
        sh.done.load(SeqCst),
        sh.hcount.load(SeqCst),
        sh.nontrivial.load(SeqCst),
        sh.stat[0].load(SeqCst),
        sh.simsecs.load(SeqCst),
        search_s,
        wall
    );
    if let Some((path, cls, msg)) = found {
        println!("violation class: {}", cls);
        for l in msg.lines() {
            println!("  {}", l);
        }
        println!("VIOLATION property={} replay={}", prop.id, path);
    }
    rc
}

fn report(prop: &Prop, o: &Opts, idx: u64) -> Result<(String, String, String), String> {
    let res = result_area();
    let (plan, mut cfg) = make_run(prop, o.seed, idx);
    let first = run_child(prop, &plan, &cfg, &[], res);
    if first.status != 2 {
        return Err(format!("violation not reproduced (status {}: {})", first.status, first.msg));
    }
    let full = (plan.nops(), first.log.len());
    let mut choices = first.log.clone();
    cfg.replay = 1;
    let again = run_child(prop, &plan, &cfg, &choices, res);
    if again.status != 2 || again.cls != first.cls || again.hash != first.hash {
        return Err(format!(
            "recorded schedule does not replay: first {} {:x}, then status {} {} {:x} {}",
            first.cls, first.hash, again.status, again.cls, again.hash, again.msg
        ));
    }
    let mut plan = plan;
    minimise(prop, &mut plan, &mut cfg, &mut choices, &first.cls, res);
    let a = run_child(prop, &plan, &cfg, &choices, res);
    let b = run_child(prop, &plan, &cfg, &choices, res);
    if a.status != 2 || a.cls != first.cls || (a.hash, &a.msg) != (b.hash, &b.msg) {
        return Err("minimised schedule does not replay".into());
    }
    let rp = Replay {
        plan: plan.clone(),
        cfg,
        choices: choices.clone(),
        expect: a.cls.clone(),
        msg: a.msg.clone(),
        origin: format!(
            "seed {} run {}: {} operations and {} choices reduced to {} operations and {} choices",
            o.seed,
            idx,
            full.0,
            full.1,
            plan.nops(),
            choices.len()
        ),
    };
    let _ = std::fs::create_dir_all(&o.replays);
    let path = format!("{}/{}-seed{}-run{}.replay", o.replays, prop.id, o.seed, idx);
    std::fs::write(&path, rp.to_text(&prop.describe)).map_err(|e| e.to_string())?;
    // replay in a fresh process
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe).args(["replay", &path]).output().map_err(|e| e.to_string())?;
    if out.status.code() != Some(1) {
        return Err(format!("replay in a fresh process differs: {}", String::from_utf8_lossy(&out.stdout)));
    }
    println!("{}", rp.origin);
    Ok((path, a.cls, a.msg))
}

fn minimise(prop: &Prop, plan: &mut Plan, cfg: &mut Config, choices: &mut Vec<Choice>, cls: &str, res: *mut RunResult) {
    let t0 = rt::real_ns();
    let mut budget = 2500i32;
    let over = |b: i32| b <= 0 || rt::real_ns() - t0 > 25_000_000_000;
    let mut attempt = |plan: &Plan, cfg: &mut Config, ch: &mut Vec<Choice>, seeds: u64, budget: &mut i32| -> bool {
        *budget -= 1;
        let r = run_child(prop, plan, cfg, ch, res);
        if r.status == 2 && r.cls == cls {
            return true;
        }
        for s in 0..seeds {
            if *budget <= 0 {
                return false;
            }
            *budget -= 1;
            let mut c = cfg.clone();
            c.replay = 0;
            c.seed = cfg.seed.wrapping_add(0x1234567 * (s + 1));
            c.policy = if cfg.policy >= 3 && s % 2 == 0 { cfg.policy } else { (s % 3) as i32 };
            if cfg.policy == 3 && c.policy != 3 {
                c.p_switch = 13107;
            }
            c.pct_len = 60;
            if c.pct_depth < 2 {
                c.pct_depth = 3;
            }
            let r = run_child(prop, plan, &c, &[], res);
            if r.status == 2 && r.cls == cls {
                c.replay = 1;
                *cfg = c;
                *ch = r.log;
                return true;
            }
        }
        false
    };
    let mut changed = true;
    while changed && !over(budget) {
        changed = false;
        if plan.p("unwind") != 0 && !over(budget) {
            let mut p = plan.clone();
            p.set("unwind", 0);
            let mut ch = choices.clone();
            if attempt(&p, cfg, &mut ch, 12, &mut budget) {
                *plan = p;
                *choices = ch;
            }
        }
        // whole threads
        let mut t = 0;
        while t < plan.threads.len() && !over(budget) {
            if !plan.threads[t].is_empty() {
                let mut p = plan.clone();
                p.threads[t].clear();
                let mut ch = choices.clone();
                if attempt(&p, cfg, &mut ch, 12, &mut budget) {
                    *plan = p;
                    *choices = ch;
                    changed = true;
                }
            }
            t += 1;
        }
        // operations, in chunks
        for t in 0..plan.threads.len() {
            let mut n = (plan.threads[t].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < plan.threads[t].len() && !over(budget) {
                    let mut p = plan.clone();
                    let e = (i + n).min(p.threads[t].len());
                    p.threads[t].drain(i..e);
                    let mut ch = choices.clone();
                    if attempt(&p, cfg, &mut ch, if n == 1 { 12 } else { 3 }, &mut budget) {
                        *plan = p;
                        *choices = ch;
                        changed = true;
                    } else {
                        i += n;
                    }
                }
                if n == 1 || over(budget) {
                    break;
                }
                n /= 2;
            }
        }
        // choices (preemptions, clock steps, faults)
        let mut n = (choices.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < choices.len() && !over(budget) {
                let mut ch = choices.clone();
                let e = (i + n).min(ch.len());
                ch.drain(i..e);
                if attempt(plan, cfg, &mut ch, 0, &mut budget) {
                    *choices = ch;
                    changed = true;
                } else {
                    i += n;
                }
            }
            if n == 1 || over(budget) {
                break;
            }
            n /= 2;
        }
    }
}

pub fn replay(prop: &Prop, rp: &Replay) -> i32 {
    let res = result_area();
    let mut cfg = rp.cfg.clone();
    cfg.replay = 1;
    let r = run_child(prop, &rp.plan, &cfg, &rp.choices, res);
    match r.status {
        1 => {
            println!("property={} held in this execution (hash {:016x})", prop.id, r.hash);
            0
        }
        2 => {
            println!("class {} hash {:016x}", r.cls, r.hash);
            println!("{}", r.msg);
            if r.cls == rp.expect {
                1
            } else {
                println!("(a different violation than recorded: expected {})", rp.expect);
                3
            }
        }
        _ => {
            println!("HARNESS-ERROR {}", r.msg);
            2
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn write_evidence(prop: &Prop, o: &Opts, sh: &Shared, search_s: f64, wall: f64, violations: i32, out: &str) {
    let g = |a: &AtomicU64| a.load(SeqCst);
    let runs = g(&sh.done);
    let mut samples = vec![];
    let res = result_area();
    for idx in 0..3.min(runs) {
        let (plan, cfg) = make_run(prop, o.seed, idx);
        let r = run_child(prop, &plan, &cfg, &[], res);
        let mut s = format!("run {} (policy {}, ", idx, ["random walk", "PCT", "operation boundaries", "one victim", "long stalls"][cfg.policy as usize]);
        s += &plan.params.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ");
        s += ")";
        for (i, ob) in plan.objs.iter().enumerate().take(6) {
            s += &format!("{}{}", if i == 0 { "; setup: " } else { ", " }, (prop.describe)(ob, true));
        }
        for (t, ops) in plan.threads.iter().enumerate() {
            s += &format!("; t{}: ", t + 1);
            s += &ops.iter().take(8).map(|q| (prop.describe)(q, false)).collect::<Vec<_>>().join(", ");
            if ops.len() > 8 {
                s += ", ...";
            }
        }
        s += &format!(
            " => {} after {} steps, {} context switches, execution hash {:016x}",
            if r.status == 1 { "held" } else { "violated" }, r.stat[0], r.stat[1], r.hash
        );
        samples.push(esc(&s.chars().take(1500).collect::<String>()));
    }
    let mut faults = vec![];
    for i in [2usize, 3, 4, 5, 7, 9, 32, 10, 11, 12, 13, 14, 17, 33] {
        faults.push(format!(
            "{}: {{\"injected\": {}, \"runs\": {}}}",
            esc(rt::STATS[i]),
            g(&sh.stat[i]),
            g(&sh.statruns[i])
        ));
    }
    let mut reach = vec![];
    for i in [0usize, 1, 6, 8, 18, 20, 22, 15, 16] {
        reach.push(format!("{}: {}", esc(rt::STATS[i]), g(&sh.stat[i])));
    }
    let mut probes = vec![];
    for (i, p) in prop.probes.iter().enumerate() {
        probes.push(format!("{}: {}", esc(p), g(&sh.stat[24 + i])));
    }
    let known = o.known.iter().map(|k| esc(&format!("{} ({}): {}", k.0, k.1, k.2))).collect::<Vec<_>>().join(", ");
    let text = format!(
        r#"{{
 "property": {id}, "tier": {tier}, "seed": {seed}, "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {nontriv},
  "rule": {rule},
  "samples": [{samples}],
  "distinct_interleavings": {distinct},
  "distinctness_measure": "hash over (from thread, operation, step, to thread) of every context switch and over every injected clock step and I/O result, plus the workload size",
  "operations_executed": {ops},
  "runs_given_up_for_length": {cut},
  "runs_per_hour": {rph:.0},
  "seeds_per_hour": {rph:.0},
  "simulated_seconds": {sims},
  "schedulers": {{"random_walk": {p0}, "pct": {p1}, "operation_boundaries": {p2}, "one_victim": {p3}, "long_stalls": {p4}}},
  "faults": {{{faults}}},
  "reach": {{{reach}}},
  "probes": {{{probes}}},
  "components_real": {real},
  "components_stubbed": {stub},
  "known_findings": [{known}],
  "worker_processes": {jobs}
 }},
 "assumptions": ["sequentially consistent interleavings: reorderings allowed by weaker memory orderings are not simulated", "std and the dependencies are compiled from source with the same instrumentation; glibc and the kernel are trusted"],
 "wall_s": {wall:.2}, "violations": {violations}, "search_s": {search:.2}
}}
"#,
        id = esc(prop.id),
        tier = esc(&o.tier),
        seed = o.seed,
        runs = runs,
        nontriv = g(&sh.nontrivial),
        rule = esc(prop.rule),
        samples = samples.join(", "),
        distinct = g(&sh.hcount),
        ops = g(&sh.ops),
        cut = g(&sh.cut),
        rph = runs as f64 / search_s.max(0.001) * 3600.0,
        sims = g(&sh.simsecs),
        p0 = g(&sh.policy[0]),
        p1 = g(&sh.policy[1]),
        p2 = g(&sh.policy[2]),
        p3 = g(&sh.policy[3]),
        p4 = g(&sh.policy[4]),
        faults = faults.join(", "),
        reach = reach.join(", "),
        probes = probes.join(", "),
        real = esc(prop.real),
        stub = esc(prop.stub),
        known = known,
        jobs = o.jobs,
        wall = wall,
        violations = violations,
        search = search_s
    );
    if let Err(e) = std::fs::write(out, text) {
        println!("cannot write evidence {}: {}", out, e);
    }
}

/// Runs many seeds twice under different worker placement and compares everything observable.
/// Everything but the number of stalls the scheduler decided on: a replay takes its switches from the log.
fn stats_differ(a: &[u64], b: &[u64]) -> bool {
    (0..NSTAT).any(|i| rt::STATS[i] != "long_thread_stalls" && a[i] != b[i])
}

pub fn determinism(prop: &Prop, seed: u64, n: u64) -> i32 {
    let res = result_area();
    let mut bad = 0;
    for idx in 0..n {
        let (plan, cfg) = make_run(prop, seed, idx);
        let a = run_child(prop, &plan, &cfg, &[], res);
        let b = run_child(prop, &plan, &cfg, &[], res);
        let mut rc = cfg.clone();
        rc.replay = 1;
        let c = run_child(prop, &plan, &rc, &a.log, res);
        for (w, x) in [("rerun", &b), ("replay", &c)] {
            if a.status != x.status || a.hash != x.hash || stats_differ(&a.stat, &x.stat) || a.log != x.log || a.msg != x.msg || a.simtime != x.simtime {
                println!("NONDETERMINISM {} run {} ({}): {:x}/{:x} steps {}/{} status {}/{} {}", prop.id, idx, w, a.hash, x.hash, a.stat[0], x.stat[0], a.status, x.status, x.msg);
                for i in 0..NSTAT { if rt::STATS[i] != "long_thread_stalls" && a.stat[i] != x.stat[i] { println!("   stat {} {} {}", rt::STATS[i], a.stat[i], x.stat[i]); } }
                bad += 1;
            }
        }
    }
    println!("determinism {}: {} runs, {} differences", prop.id, n, bad);
    (bad > 0) as i32
}
/// Digest over runs, for comparing whole processes.
pub fn digest(prop: &Prop, seed: u64, n: u64) -> u64 {
    let res = result_area();
    let mut h = 0u64;
    for idx in 0..n {
        let (plan, cfg) = make_run(prop, seed, idx);
        let a = run_child(prop, &plan, &cfg, &[], res);
        h = h.rotate_left(7) ^ a.hash ^ a.stat[0].wrapping_mul(31) ^ (a.log.len() as u64);
    }
    h
}
