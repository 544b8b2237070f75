//! Table of the properties this simulator decides.
use crate::common::{Res, Rx};
use crate::rng::Rng;
use crate::spec::Case;
use crate::{p_io as io, p_misc as m, p_py as py, p_solver as s};

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng) -> Case,
    pub run: fn(&Case, &mut Rx) -> Res,
    /// simulated runs per tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}
const REAL_WALK: &str = "dess walk/solve_step/save_state, all step methods, macros' generated accessors, clone/bare clone, serialisation (real code, linked from /repo); dess-examples components and systems (real code)";
const STUB_MODEL: &str = "model callbacks of ten harness systems built with the repository's macros (they are the seam for derivative faults and task switches); process crash = drop of all in-memory objects";
const REAL_IO: &str = "to_file/from_file/to_*/from_* of dess, std::fs, serde_json, serde_yaml, bincode (real code); kernel file system on a scratch directory";
const STUB_IO: &str = "open/read/write/fsync/rename/unlink/close/truncate of libc are interposed: errors, short transfers, crash points; durability after power loss is a model (what was synced, plus a random prefix of what was not)";

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", gen: s::gen_c01, run: s::run_c01, quick: 400_000, thorough: 6000_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "seeded system, method, step size and report list; seeded script of single reports, partial walks, re-walks, checkpoints, crashes with restart, copies; non-trivial when the script has more than the final walk; distinct by hash of the script" },
    Prop { id: "C02", gen: s::gen_c02, run: s::run_c02, quick: 800_000, thorough: 12000_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "seeded system with a fixed-step method; seeded script incl. crashes, restarts, copies and outside disturbances; every recorded row compared with an independent implementation of the published tableau from the previous row; non-trivial when the script has more than the final walk; distinct by hash of the script" },
    Prop { id: "C03", gen: s::gen_c03, run: s::run_c03, quick: 80_000, thorough: 1200_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "seeded adaptive run, by walk or by single public step calls, with crashes, disturbances and (half of the runs) transient non-finite derivatives; each accepted step compared with the published formula; non-trivial when the script has more than the final walk or the run is driven step by step; distinct by hash of the script" },
    Prop { id: "C04", gen: s::gen_c04, run: s::run_c04, quick: 30_000, thorough: 450_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "as C03 without model faults, tolerances often tight enough to force rejections; each accepted step replayed through an independent implementation of the control law; non-trivial and distinct as C03" },
    Prop { id: "C05", gen: s::gen_c05, run: s::run_c05, quick: 120_000, thorough: 1800_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "as C04 with logging options varied; the step log is walked against rows and report times; non-trivial and distinct as C03" },
    Prop { id: "C06", gen: s::gen_c06, run: s::run_c06, quick: 150_000, thorough: 2250_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "adaptive runs with 1-3 bursts of NaN/inf derivatives at seeded evaluations; non-trivial and distinct as C03" },
    Prop { id: "C07", gen: s::gen_c07, run: s::run_c07, quick: 45_000, thorough: 675_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "seeded run with checkpoints in five formats, crashes between operations and inside derivative evaluations, restarts; compared exactly with the uninterrupted run; non-trivial when the script has more than the final walk; distinct by hash of the script" },
    Prop { id: "C08", gen: s::gen_c08, run: s::run_c08, quick: 600_000, thorough: 9000_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "seeded run whose callback panics at 1-4 seeded evaluations spread over the undisturbed run's evaluations; non-trivial when at least one panic was survived; distinct by hash of script and panic count" },
    Prop { id: "C09", gen: io::gen_c09, run: io::run_c09, quick: 40_000, thorough: 600_000, real: REAL_IO, stub: STUB_IO,
        rule: "1-4 consecutive saves (30% with 2-3 concurrent savers and a reader) each with at most one seeded disk fault, process death or power loss at a seeded call; non-trivial when a fault fired or several savers ran; distinct by hash of fault plan, options and interleaving" },
    Prop { id: "C10", gen: io::gen_c10, run: io::run_c10, quick: 250_000, thorough: 3750_000, real: REAL_IO, stub: STUB_IO,
        rule: "stored object of a seeded system in a seeded format, then read faults, truncation or byte damage; every run is non-trivial; distinct by hash of fault plan and options" },
    Prop { id: "C11", gen: m::gen_c11, run: m::run_c11, quick: 50_000, thorough: 750_000, real: REAL_WALK, stub: "model callbacks of ten harness systems; threads are real but exactly one runs at a time, chosen by the seeded scheduler at derivative evaluations, file calls and operation boundaries; libc file calls interposed",
        rule: "2-5 seeded systems with seeded scripts, run alone and then interleaved under a seeded preemption list; non-trivial when at least one switch happened; distinct by hash of interleaving and scripts" },
    Prop { id: "C12", gen: m::gen_c12, run: m::run_c12, quick: 200_000, thorough: 3000_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "seeded run with copies and bare copies taken, advanced (also concurrently, also failing), disturbed and dropped at seeded points; non-trivial when the script has more than the final walk; distinct by hash of the script" },
    Prop { id: "C13", gen: s::gen_c13, run: s::run_c13, quick: 400_000, thorough: 6000_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "seeded thermal networks (closed ring, chain, reservoirs as source and sink) with scripts of crashes, restarts and copies; non-trivial when the script has more than the final walk; distinct by hash of the script" },
    Prop { id: "C14", gen: s::gen_c14, run: s::run_c14, quick: 600_000, thorough: 9000_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "seeded run walked whole, repeated, walked in parts, and (half of the runs) with derivatives non-finite for good from a seeded evaluation on, under an evaluation budget from the reference solver; non-trivial when there is more than one report or a fault; distinct by hash of evaluation and report counts" },
    Prop { id: "C15", gen: s::gen_c15, run: s::run_c15, quick: 450_000, thorough: 6750_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "seeded run with seeded script incl. disturbances, crashes and restarts; every row compared with the reference model at the recorded time and states; non-trivial when the script has more than the final walk; distinct by hash of the script" },
    Prop { id: "C16", gen: m::gen_c16, run: m::run_c16, quick: 800_000, thorough: 12000_000, real: "history containers generated by the HistoryVec macro for six record types, their serialisation (real code)", stub: "crash = drop of the container, reload from what was stored; libc file calls interposed",
        rule: "seeded sequences of up to 60 container operations with crashes and reloads against a list of records, compared after every operation; non-trivial when longer than three operations; distinct by hash of the sequence" },
    Prop { id: "C17", gen: py::gen_c17, run: py::run_c17, quick: 3_000, thorough: 45_000, real: "dess_pyo3 extension module built from /repo, CPython 3.12, and the same Rust library linked directly (both real code)", stub: "the Python process is a simulated node: driven one request at a time over a pipe, killed and restarted at seeded points with only stored bytes surviving",
        rule: "seeded systems and seeded scripts executed in the Python module and in Rust, compared after every operation; non-trivial when the script has more than two operations; distinct by hash of the script" },
    Prop { id: "C18", gen: m::gen_c18, run: m::run_c18, quick: 1000_000, thorough: 15000_000, real: "time_it! macro, std::time, dess walk (real code)", stub: "clock_gettime is interposed and reads the simulated clock, which derivative evaluations advance by seeded amounts (zero = stalled, large = jump)",
        rule: "seeded walk timed under a seeded clock; non-trivial when the simulated clock was read at least twice; distinct by elapsed time and evaluation count" },
    Prop { id: "C19", gen: s::gen_c19, run: s::run_c19, quick: 250_000, thorough: 3750_000, real: REAL_WALK, stub: STUB_MODEL,
        rule: "seeded run with seeded calls of every bulk and single accessor and parameter changes between steps, crashes and restarts; non-trivial when the script has more than the final walk; distinct by hash of the script" },
    Prop { id: "C20", gen: io::gen_c20, run: io::run_c20, quick: 10_000, thorough: 150_000, real: "main of dess-examples (no request), run_three_tm_sys, run_three_tm_w_bc_sys and dump helpers of dess-examples, to_file, std::fs (real code)", stub: STUB_IO,
        rule: "regeneration of the seven benchmark files over a seeded set of old files with up to two seeded disk faults, process death or power loss; non-trivial when a fault fired or nothing was requested; distinct by hash of fault plan and options" },
];
pub fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
