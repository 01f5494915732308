mod common;
mod driver;
mod expo;
mod plan;
mod props;
mod reg;
mod rt;

/// Reads the lines `finding: property=ID scenario=KEY class=CLASS TEXT` of one property.
fn known(file: &str, id: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(file).unwrap_or_default().lines() {
        let mut w = l.splitn(5, ' ');
        if w.next() != Some("finding:") || w.next() != Some(&format!("property={}", id)) {
            continue;
        }
        if let (Some(k), Some(c), Some(t)) = (w.next(), w.next(), w.next()) {
            v.push((k.replacen("scenario=", "", 1), c.replacen("class=", "", 1), t.to_string()));
        }
    }
    v
}

fn main() {
    // a fixed address space layout, so that addresses cannot influence a run
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIMRUN_REEXEC").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIMRUN_REEXEC", "1").exec();
                eprintln!("re-exec failed: {}", e);
            }
        }
    }
    rt::heap_init();
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: simrun check PROP [--tier quick|thorough] [--seed N] [--runs N] [--wall S] [--jobs N] [--out FILE] [--replays DIR] [--known FILE]\n       simrun replay FILE [-v]\n       simrun determinism PROP [N] | digest PROP SEED N | show PROP SEED IDX | list");
        std::process::exit(2)
    };
    if args.len() < 2 {
        usage()
    }
    let find = |id: &str| -> &'static driver::Prop {
        match props::ALL.iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("no such property {}", id);
                std::process::exit(2)
            }
        }
    };
    let opt = |n: &str| -> Option<String> { args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned()) };
    let num = |n: &str, d: u64| -> u64 { opt(n).and_then(|v| v.parse().ok()).unwrap_or(d) };
    if args.iter().any(|a| a == "-v") {
        driver::VERBOSE.store(1, std::sync::atomic::Ordering::SeqCst);
    }
    let code = match args[1].as_str() {
        "list" => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        "check" if args.len() > 2 => {
            let p = find(&args[2]);
            let tier = opt("--tier").unwrap_or("quick".into());
            let thorough = tier == "thorough";
            let o = driver::Opts {
                seed: num("--seed", 1),
                runs: num("--runs", if thorough { p.thorough } else { p.quick }),
                wall_s: num("--wall", if thorough { 780 } else { 150 }),
                slow: num("--slow", u64::MAX),
                jobs: num("--jobs", driver::allowed_cpus().len().min(16) as u64) as usize,
                out: opt("--out"),
                replays: opt("--replays").unwrap_or("/tmp".into()),
                tier,
                known: opt("--known").map_or(vec![], |f| known(&f, p.id)),
            };
            driver::check(p, &o)
        }
        "replay" if args.len() > 2 => match std::fs::read_to_string(&args[2]).ok().and_then(|t| plan::Replay::parse(&t)) {
            Some(r) => driver::replay(find(&r.plan.prop), &r),
            None => {
                eprintln!("cannot read {}", args[2]);
                2
            }
        },
        "determinism" if args.len() > 2 => {
            let n = args.get(3).and_then(|v| v.parse().ok()).unwrap_or(200);
            let list: Vec<&str> = if args[2] == "all" { props::ALL.iter().map(|p| p.id).collect() } else { vec![&args[2]] };
            list.iter().fold(0, |a, id| a | driver::determinism(find(id), num("--seed", 1), n))
        }
        "digest" if args.len() > 4 => {
            println!("{:016x}", driver::digest(find(&args[2]), args[3].parse().unwrap(), args[4].parse().unwrap()));
            0
        }
        "show" if args.len() > 4 => {
            let p = find(&args[2]);
            let (plan, cfg) = driver::make_run(p, args[3].parse().unwrap(), args[4].parse().unwrap());
            let r = driver::run_child(p, &plan, &cfg, &[], driver::result_area());
            println!("status {} class {} msg {}", r.status, r.cls, r.msg);
            println!("steps {} switches {} hash {:x}", r.stat[0], r.stat[1], r.hash);
            let rp = plan::Replay { plan, cfg, choices: r.log, expect: if r.cls.is_empty() { "-".into() } else { r.cls }, msg: r.msg, origin: String::new() };
            println!("{}", rp.to_text(&p.describe));
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
