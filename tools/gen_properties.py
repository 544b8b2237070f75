#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
SV = "dess/src/solver.rs"; TM = "dess/src/traits_and_macros.rs"; SA = "dess/dess-proc-macros/src/solver_attr.rs"
BC = "dess/dess-proc-macros/src/bare_clone.rs"; HM = "dess/dess-proc-macros/src/history_methods.rs"
HV = "dess/dess-proc-macros/src/history_vec.rs"; PA = "dess/dess-proc-macros/src/pyo3_api.rs"
CO = "dess-examples/src/components.rs"; S3 = "dess-examples/src/three_thermal_mass_sys.rs"; S3B = "dess-examples/src/three_thrml_mass_w_bc_sys.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Every requested report time is recorded exactly once, in order",
  "Walking a system over an increasing list of report times records exactly one row per report time, in list order, in the system's history and in every component's history, and the time of each row is the report time itself to within rounding (or the start time, if the report time had already passed when the walk began). This holds however the walk is driven: in one call, one report at a time, as several walks over a growing list, or across crashes and restarts from a checkpoint, and whatever the solver method and step size. Row numbers count reports and the final time is the last report time.",
  ["schedules", "crash_points", "inputs", "configurations"],
  "Any increasing report list (irregular, tiny and large gaps, any start time), any of the seven methods, any step limits, any way of splitting the walk, any crash/restart points.",
  "Tests walk two fixed systems once over evenly spaced lists from 0 to 1 and compare with stored files; no irregular list, split walk or restart is ever driven.",
  [SA, HM, HV], [("walk loop: solve_step, advance index, save_state", SA), ("solve_step clips each step to the next report time", SA), ("save_state fan-out to components", HM)],
  [("state.i", "index of the next report time", "dess/src/lib.rs"), ("state.time", "simulation clock", "dess/src/lib.rs")], ["system and component histories", "state.time, state.i"])

p("C02", "Fixed-step trajectories follow the selected published method",
  "With a fixed-step method selected, the recorded trajectory of every state is the one obtained by repeatedly applying that published method (Euler, Heun, midpoint, Ralston, classic Runge-Kutta 4) with steps of the configured size, shortened only where needed to land on the next report time. This holds for any coupled, nonlinear, time-dependent model and any report schedule, also when the run is interrupted, checkpointed, restarted, continued on a copy, or disturbed from outside between steps.",
  ["schedules", "inputs", "configurations", "histories"],
  "Any model with any number of states, any report schedule and step size, any sequence of interruptions, restarts and external disturbances between steps.",
  "Benchmarks compare one linear autonomous system at its default step size; the accuracy tests for the time-dependent system only print. Time dependence, nonlinearity, step clipping and restarts are never asserted.",
  [SV, SA], [("one-step methods euler, heun, midpoint, ralston, rk4fixed", SV), ("step selection min(dt, time to report)", SA)],
  [("solver_type", "selected method and step size", SV)], ["state columns of the histories"])

p("C03", "Adaptive steps advance by the pair's higher-order solution",
  "Each accepted step of an adaptive method moves time forward by exactly the step size it reports, and moves the states by the published higher-order formula of its pair (Bogacki-Shampine third order, Cash-Karp fifth order) evaluated from the state at the start of that step. Trial steps that were rejected, external disturbances, restarts and transient model faults before it leave no trace in the accepted step.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "Any model, tolerance configuration, report schedule, sequence of rejected trials, disturbances, restarts and transient faults preceding the step.",
  "The only adaptive benchmark that passes covers one linear system with default tolerances, where no stage depends on time; the other one fails here and is not in the stable set.",
  [SV], [("rk23_bogacki_shampine_step / rk45_cash_karp_step stages on bare clones", SV), ("step applied after the retry loop", SV)], (), ["states and time after a step", "returned step size", "step log"])

p("C04", "Adaptive error control accepts, rejects and resizes steps as documented",
  "An adaptive step is accepted only if its relative error estimate is within the relative tolerance, or its absolute estimate is within the absolute tolerance, or the allowed number of iterations is used up; a rejected trial is retried with a smaller step and, after acceptance, the next step is sized from the ratio of tolerance to error. The first trial is never larger than the previous proposal, the maximum step, or the time left to the next report. The reported iteration count, absolute and relative errors are those of the accepted trial (difference of the pair's two solutions, Euclidean norm).",
  ["schedules", "inputs", "configurations", "histories"],
  "Any model, any tolerances, maximum step, iteration limit and initial step, every step of every run, including the steps after clipping to a report time and after a restart.",
  "Tests use default or slightly loosened tolerances on one system and never look at the decision of an individual step; rejection, iteration limit, absolute-tolerance and zero-change paths are not asserted.",
  [SV], [("retry loop and tol_met / break_cond / dt_coeff", SV)], [("solver state dt, n_iter, norm_err, norm_err_rel", "proposal and last estimates", SV)], ["adaptive solver state after each step", "step log"])

p("C05", "The adaptive step log is a faithful, gap-free account of the run",
  "With step logging on, an adaptive run logs exactly one entry per accepted step: each entry's start time plus its step size is the next entry's start time, the first starts where the run started and the last ends where it ended, no entry crosses a report time or exceeds the maximum step. Logged states (when enabled) are the states reached by that step, and are left empty when disabled; with logging off nothing is logged. Restarting from a checkpoint continues the log without gaps or duplicates. The mean step size reported is the mean of the logged ones.",
  ["schedules", "crash_points", "configurations"],
  "Any model, schedule, tolerance configuration, logging configuration and crash/restart points.",
  "No test enables logging.",
  [SV, SA], [("history push on acceptance", SV)], [("step log", "one entry per accepted step", SV)], ["adaptive solver history"])

p("C06", "A transient non-finite derivative is absorbed by step rejection",
  "If a model momentarily yields a non-finite derivative during an adaptive run, the affected trial step is rejected and retried, and as long as iterations remain the recorded states stay finite and every accepted step still satisfies the method's step formula for the undisturbed model. The glitch does not stop the run from reaching the last report time.",
  ["fault_sequences", "schedules", "inputs"],
  "Any instants and lengths of short bursts of NaN or infinite derivatives, in any component, under any model, schedule and tolerance configuration with iterations left.",
  "No test injects a fault into a model.",
  [SV], [("trial stages run on bare clones; non-finite error never meets the tolerance", SV)], (), ["recorded states", "step log"])

p("C07", "A checkpoint restored after a crash resumes the same trajectory",
  "If a run is cut off at any point and resumed from a checkpoint taken earlier (JSON, YAML or binary, in memory or in a file), the completed run ends with exactly the histories, states, solver state and step log of the run that was never interrupted. Every state a run with finite values can reach can be stored and loaded again in every format.",
  ["crash_points", "schedules", "configurations", "inputs"],
  "Any crash point, any checkpoint position and format, any number of restarts, any model, method and schedule.",
  "Tests only load stored benchmark files; nothing is ever stored, cut off and resumed.",
  [TM, SV, SA], [("serialization covers all fields incl. clock, index, next step proposal, histories", TM), ("walk restarts from stored index and time", SA)],
  [("solver state dt", "next step proposal, part of the durable state", SV)], ["to_*/from_* results", "final system after resumption"])

p("C08", "A failing model callback never leaves a torn step",
  "If the user's derivative computation fails (panics) at any instant of a walk, the system is left holding the time and states of a step boundary of the undisturbed run, never of a partly applied step. Walking on from there once the model works again records the same report times and states as a run without the failure.",
  ["fault_sequences", "crash_points", "schedules", "inputs"],
  "Any method, model and schedule; a failure at any derivative evaluation, once or repeatedly.",
  "No test makes a model fail.",
  [SV, SA], [("stages are evaluated on copies; states and time are set together at the end", SV)], (), ["time and states after the failure", "histories after resumption"])

p("C09", "Saving to a file is all-or-nothing and failures are reported",
  "Saving to a file either succeeds, and the file then loads back as the complete saved object, or reports an error; in no case, whether disk error, full disk, short or interrupted write, crash of the process or power loss at any instant of the save, or several savers on one path, does the path afterwards hold anything but one complete earlier or newly saved object (or still nothing, if nothing was stored before). A save under an unsupported file suffix reports an error and touches no file. After a failed save, saving again works once the fault is gone.",
  ["fault_sequences", "crash_points", "schedules", "inputs"],
  "Any object, both file formats, any single or repeated I/O fault at any system call of the save, a crash or power loss at any of them, any interleaving of concurrent savers and loaders.",
  "No test saves a file, let alone on a failing disk.",
  [TM], [("to_file: format chosen by suffix; serialization to the file; error propagation", TM)], (), ["result of to_file", "from_file on the same path afterwards"], None)

p("C10", "A load returns what was stored or an error, under any read fault",
  "Loading (from file or from bytes or text) returns an object equal to the stored one when the data is intact, also if reads are short or interrupted; a read error, a missing file or an unsupported suffix gives an error. JSON or binary data cut short is always rejected, and damaged data of any format is rejected or loaded but never makes the load panic, hang or exhaust memory.",
  ["fault_sequences", "inputs"],
  "Any stored object and format, any read fault at any system call of the load, any truncation point, any damaged bytes.",
  "Tests load a handful of intact YAML files.",
  [TM], [("from_file / from_json / from_yaml / from_bincode", TM)], (), ["result of the load"])

p("C11", "Independent systems never influence each other",
  "Any number of systems that are advanced concurrently, with their steps, derivative evaluations, saves and loads interleaved in any order on one or several threads, each produce exactly the histories, states and logs they produce when run alone.",
  ["schedules", "inputs", "configurations"],
  "Any set of systems of any types and methods, any interleaving down to single derivative evaluations and I/O calls.",
  "Tests run systems one after the other and share nothing to compare.",
  [SV, SA, BC, TM], [("all solver state is owned by the system value; no shared or static state", SV)], (), ["final systems"])

p("C12", "Clones and bare clones are faithful, independent copies",
  "A clone equals its original, and a bare clone equals it except that the recorded rows of the system and its components are empty. Advancing, disturbing or dropping either of them never changes the other, and from the moment of copying both produce the same further rows.",
  ["histories", "schedules", "inputs"],
  "Any model and method, any point of the run at which copies are taken, any interleaving of operations on original and copies.",
  "One unit test checks that three histories of one fresh system are empty in a bare clone.",
  [BC, SV], [("BareClone derive: copies every field but histories, recursing into components", BC)], (), ["copies and originals"])

p("C13", "Heat exchange conserves energy and leaves reservoirs alone",
  "In a closed network of thermal masses, the total heat (capacitance times temperature) is the same in every recorded row, for every method, step size and schedule, also across restarts and copies. A thermal reservoir supplies or absorbs heat without its temperature being changed by the exchange, whichever side of a connection it is on and wherever it is listed, and heat flows from the warmer to the colder side in proportion to the conductance.",
  ["schedules", "inputs", "configurations", "crash_points"],
  "Any capacitances, conductances, temperatures, network positions of masses and reservoirs, methods, schedules and restart points.",
  "A Python script plots conservation for one system; no test asserts it, and the system with a reservoir is never asserted at all.",
  [CO, TM, S3, S3B], [("update_derivs macro: equal and opposite contributions", TM), ("ThermalReservoir keeps a zero derivative and infinite storage", CO)], (), ["temperature, derivative and flow histories"])

p("C14", "Every walk terminates, and can be repeated or extended without rework",
  "A walk ends after a bounded amount of work for any positive step size large enough to move the clock and any attainable tolerances, time never moving backwards, even if the model starts returning non-finite derivatives for good. Walking a finished system again changes nothing, and appending report times and walking again gives the same rows as one walk over the whole list.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "Any schedule, method, positive step size (above the resolution of the clock), iteration limit, attainable tolerances, and any instant at which derivatives become permanently non-finite.",
  "Tests only see runs that end; no fault, repetition or extension is tried.",
  [SA, SV], [("walk / solve_step loops make progress in time", SA), ("step size shrink and growth in the adaptive loop", SV)], (), ["number of derivative evaluations", "rows after repetition or extension"])

p("C15", "Each recorded row is a coherent snapshot of one instant",
  "All values in a recorded row belong to the same instant: the recorded derivatives and flows are those the model gives for the recorded time and states (except in rows recorded before anything was computed), for every method and schedule, however the walk is split, restarted or disturbed between steps. The current values of the system and its components equal its last recorded row.",
  ["schedules", "inputs", "configurations"],
  "Any model, method, schedule and way of driving the walk.",
  "Recorded derivatives and flows are compared with stored files for one linear, time-independent system only.",
  [SV, HM, SA], [("derivatives are recomputed after each step and before saving", SV), ("save_state saves all components at once", HM)], (), ["histories of components and connections"])

p("C16", "History containers behave as sequences of whole states",
  "Each generated history container behaves exactly like a list of state records under any sequence of push, pop, clear, length, emptiness, copy, store and load operations: pops return whole records in reverse order of pushing, all columns always have the same length, and an empty container pops nothing.",
  ["histories", "crash_points", "inputs"],
  "Any sequence of operations on any history type, with store/restart at any point.",
  "Tests only check emptiness and a length of one.",
  [HV], [("HistoryVec derive", HV)], (), ["container columns, pop results"])

p("C17", "The Python module behaves like the Rust library",
  "Driven through the Python module, systems give exactly the rows, solver state and stored forms that the same operations give in Rust: construction, both adaptive constructors with their options, walking, copies, and every store/load format. Objects handed out by attribute access, copies and loads are snapshots: walking or dropping one never changes another.",
  ["histories", "schedules", "inputs", "configurations"],
  "Any interleaving of operations on several Python objects, any configuration.",
  "No test touches the Python module; scripts only plot.",
  [PA, "dess-examples-pyo3/src/lib.rs", S3, S3B, CO, SV], [("pyo3_api generated methods", PA), ("constructors", S3), ("AdaptiveSolverConfig constructor and mean step", SV)], (), ["Python attributes and stored forms"])

p("C18", "The timing helper runs its expression once and reports elapsed clock time",
  "The timing macro evaluates the given expression exactly once and returns the difference between the clock after and before it, also when the clock stalls or jumps forward during the expression.",
  ["schedules", "fault_sequences"],
  "Any clock behaviour and any expression duration, nested or repeated use.",
  "The macro is only used for printing in the example binary.",
  [TM], [("time_it macro reads Instant at call site", TM)], (), ["returned duration", "side effects of the expression"])

p("C19", "Changes made between steps take effect exactly and completely",
  "States, derivatives and parameters that a user sets or increments on a system between steps, in bulk or on a single component, are read back exactly and in declaration order, touch nothing else, and the following steps start from exactly the changed values with freshly computed derivatives. Resetting derivatives clears all of them, stepping time changes nothing but time, and stepping states by a time step moves each state by its own derivative and time by that step. Solver settings changed between steps (step size, method, tolerances, limits) govern the steps from then on.",
  ["histories", "schedules", "inputs"],
  "Any sequence of direct reads, writes and increments, interleaved with steps, restarts and copies, on any system type.",
  "No test calls the bulk accessors, and nothing is ever changed between steps.",
  [SA, TM], [("HasStates / SolverBase implementations generated by the solver attribute", SA), ("HasState default methods", TM)], (), ["states(), derivs(), storages(), time"])

p("C20", "Stored benchmarks change only on request and never partially",
  "Running the example systems without asking for new benchmarks writes no file. When asked, each stored benchmark afterwards loads as the complete result of its method on its example system; if the disk fails or the process dies part-way, every benchmark file still holds a complete old or new result.",
  ["fault_sequences", "crash_points", "configurations"],
  "Any disk fault or crash point during benchmark regeneration, with or without the request flag.",
  "Tests only read the benchmark files.",
  [S3, S3B, TM], [("overwrite flags in the run_* functions", S3)], (), ["benchmark files after the run"])

p("C30", "Each method converges at its published order",
  "Halving the step of a fixed-step method (or tightening the tolerance of an adaptive one) reduces the global error on smooth problems at the order published for that method.",
  ["inputs", "configurations"], "Any smooth problem and sufficiently small step.",
  "Accuracy tests print whether they stay within a tolerance but never assert it.",
  [SV], [("method coefficients", SV)])
p("C31", "Numeric helpers compute what their names say",
  "Evenly spaced lists contain the requested number of points from start to stop, differences are those of neighbours, zipping stops at the shortest list, and approximate equality is symmetric and tolerant within the given bound.",
  ["inputs"], "Any arguments.", "The helpers have no tests.",
  [TM, "dess/src/utilities.rs"], [("linspace, diff, zip, almost_eq", TM)])
p("C32", "Macro misuse is rejected at compile time",
  "Misusing the solver, history or API macros (missing derivative function, forbidden function name, nothing to record) is a compile error that names the problem.",
  ["programs"], "Any user program.", "There are no compile-fail tests.",
  ["dess/dess-proc-macros/src/utilities.rs", HM], [("parse_ts_as_fn_defs, abort", "dess/dess-proc-macros/src/utilities.rs")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
