//! Workload plans: pure data, generated from a seed, shrinkable, printable.
use crate::rt::{Choice, Config};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.us(v.len())]
    }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let mut x = self.below(w.iter().map(|&a| a as u64).sum());
        for (i, &a) in w.iter().enumerate() {
            if x < a as u64 {
                return i;
            }
            x -= a as u64;
        }
        0
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Op {
    pub id: u16,
    pub k: u16,
    pub a: [i64; 4],
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Plan {
    pub prop: String,
    pub params: Vec<(String, i64)>,
    /// things set up before the threads start
    pub objs: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    next_id: u16,
}
impl Plan {
    pub fn new(prop: &str) -> Plan {
        Plan { prop: prop.to_string(), next_id: 1, ..Default::default() }
    }
    pub fn set(&mut self, k: &str, v: i64) {
        if let Some(e) = self.params.iter_mut().find(|e| e.0 == k) {
            e.1 = v;
        } else {
            self.params.push((k.to_string(), v));
        }
    }
    pub fn p(&self, k: &str) -> i64 {
        self.params.iter().find(|e| e.0 == k).map_or(0, |e| e.1)
    }
    pub fn op(&mut self, k: u16, a: &[i64]) -> Op {
        let mut x = [0i64; 4];
        x[..a.len()].copy_from_slice(a);
        let id = self.next_id;
        self.next_id += 1;
        Op { id, k, a: x }
    }
    pub fn obj(&mut self, k: u16, a: &[i64]) {
        let o = self.op(k, a);
        self.objs.push(o);
    }
    pub fn push(&mut self, t: usize, k: u16, a: &[i64]) {
        while self.threads.len() <= t {
            self.threads.push(vec![]);
        }
        let o = self.op(k, a);
        self.threads[t].push(o);
    }
    pub fn nops(&self) -> usize {
        self.threads.iter().map(|t| t.len()).sum()
    }
}

pub fn cfg_fields(c: &Config) -> Vec<(&'static str, i64)> {
    vec![
        ("seed", c.seed as i64),
        ("policy", c.policy as i64),
        ("p_switch", c.p_switch as i64),
        ("pct_depth", c.pct_depth as i64),
        ("pct_len", c.pct_len as i64),
        ("alloc_mode", c.alloc_mode as i64),
        ("p_plain", c.p_plain as i64),
        ("p_time", c.p_time as i64),
        ("p_wall", c.p_wall as i64),
        ("p_spur", c.p_spur as i64),
        ("p_fs", c.p_fs as i64),
        ("p_short", c.p_short as i64),
        ("nhalt", c.nhalt as i64),
        ("cap1", c.cap1 as i64),
        ("cap2", c.cap2 as i64),
        ("mono0", c.mono0 as i64),
        ("wall0", c.wall0),
        ("fair_seed", c.fair_seed as i64),
    ]
}
pub fn cfg_set(c: &mut Config, k: &str, v: i64) {
    match k {
        "seed" => c.seed = v as u64,
        "policy" => c.policy = v as i32,
        "p_switch" => c.p_switch = v as u32,
        "pct_depth" => c.pct_depth = v as i32,
        "pct_len" => c.pct_len = v as u32,
        "alloc_mode" => c.alloc_mode = v as i32,
        "p_plain" => c.p_plain = v as u32,
        "p_time" => c.p_time = v as u32,
        "p_wall" => c.p_wall = v as u32,
        "p_spur" => c.p_spur = v as u32,
        "p_fs" => c.p_fs = v as u32,
        "p_short" => c.p_short = v as u32,
        "nhalt" => c.nhalt = v as i32,
        "cap1" => c.cap1 = v as u32,
        "cap2" => c.cap2 = v as u32,
        "mono0" => c.mono0 = v as u64,
        "wall0" => c.wall0 = v,
        "fair_seed" => c.fair_seed = v as u64,
        _ => {}
    }
}

pub struct Replay {
    pub plan: Plan,
    pub cfg: Config,
    pub choices: Vec<Choice>,
    pub expect: String,
    pub msg: String,
    pub origin: String,
}
impl Replay {
    pub fn to_text(&self, describe: &dyn Fn(&Op, bool) -> String) -> String {
        let mut s = String::new();
        s += "# simulated execution: replay with  simrun replay <this file>\n";
        s += &format!("# {}\n", self.origin);
        for l in self.msg.lines() {
            s += &format!("# {}\n", l);
        }
        s += &format!("property {}\nexpect {}\n", self.plan.prop, self.expect);
        for (k, v) in &self.plan.params {
            s += &format!("param {} {}\n", k, v);
        }
        let op = |o: &Op| format!("{} {} {} {} {} {}", o.id, o.k, o.a[0], o.a[1], o.a[2], o.a[3]);
        for o in &self.plan.objs {
            s += &format!("obj {}  # {}\n", op(o), describe(o, true));
        }
        for t in &self.plan.threads {
            s += "thread\n";
            for o in t {
                s += &format!("  op {}  # {}\n", op(o), describe(o, false));
            }
        }
        for (k, v) in cfg_fields(&self.cfg) {
            s += &format!("cfg {} {}\n", k, v);
        }
        for c in &self.choices {
            s += &format!("choice {} {} {} {} {}\n", c.tid, c.op, c.k, crate::rt::KINDS[c.kind as usize], c.v);
        }
        s
    }
    pub fn parse(text: &str) -> Option<Replay> {
        let mut plan = Plan::default();
        let mut cfg = Config::default();
        let (mut choices, mut expect) = (vec![], String::new());
        for l in text.lines() {
            let l = l.split("  #").next()?.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let w: Vec<&str> = l.split_whitespace().collect();
            let n = |i: usize| -> Option<i64> { w.get(i)?.parse().ok() };
            let op = || -> Option<Op> {
                Some(Op { id: n(1)? as u16, k: n(2)? as u16, a: [n(3)?, n(4)?, n(5)?, n(6)?] })
            };
            match w[0] {
                "property" => plan.prop = w[1].to_string(),
                "expect" => expect = w[1].to_string(),
                "param" => plan.params.push((w[1].to_string(), n(2)?)),
                "obj" => plan.objs.push(op()?),
                "thread" => plan.threads.push(vec![]),
                "op" => plan.threads.last_mut()?.push(op()?),
                "cfg" => cfg_set(&mut cfg, w[1], n(2)?),
                "choice" => choices.push(Choice {
                    tid: n(1)? as u8,
                    op: n(2)? as u16,
                    k: n(3)? as u32,
                    kind: crate::rt::KINDS.iter().position(|k| *k == w[4])? as u8,
                    v: n(5)?,
                }),
                _ => return None,
            }
        }
        Some(Replay { plan, cfg, choices, expect, msg: String::new(), origin: String::new() })
    }
}
