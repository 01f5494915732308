//! C10: a registered metric is in every later gather, exactly once.
use crate::driver::Prop;
use crate::plan::*;
use crate::reg;

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let w = r.pick(&[[6, 5, 1, 2, 1, 1, 1, 1, 1], [8, 6, 0, 0, 0, 0, 0, 0, 0], [4, 5, 1, 1, 2, 2, 2, 3, 0]]);
    reg::gen(r, "C10", &w)
}
fn exec(p: &'static Plan) {
    reg::exec(p, "C10")
}

pub const PROP: Prop = Prop {
    id: "C10",
    gen,
    cfg: reg::cfg,
    exec,
    describe: reg::describe,
    quick: 60000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 2-4 threads register metrics and collectors of all kinds on three gatherers (one the default) through every path, in bursts and from within collectors, while others gather and drop; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std (mpsc channel, Mutex, Arc), compiled from source and instrumented",
    directed: &[("crowd", reg::crowd)],
    stub: "thread scheduler, futex, clocks, heap; user collectors are generated",
};
