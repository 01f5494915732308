//! C11: dropped metrics disappear and take nothing else with them.
use crate::driver::Prop;
use crate::plan::*;
use crate::reg;

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let w = r.pick(&[[6, 5, 2, 4, 0, 0, 0, 0, 1], [6, 6, 1, 2, 0, 0, 0, 1, 0], [7, 4, 2, 6, 0, 0, 1, 0, 0]]);
    reg::gen(r, "C11", &w)
}
fn exec(p: &'static Plan) {
    reg::exec(p, "C11")
}

pub const PROP: Prop = Prop {
    id: "C11",
    gen,
    cfg: reg::cfg,
    exec,
    describe: reg::describe,
    quick: 60000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 2-4 threads register metrics and collectors that end at a generated call, drop handles, keep and release gathered snapshots and gather; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std (mpsc channel, Mutex, Arc), compiled from source and instrumented",
    directed: &[("crowd-ends", reg::crowd_ends)],
    stub: "thread scheduler, futex, clocks, heap; user collectors are generated",
};
