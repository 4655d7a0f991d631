#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as a table so that it can be reviewed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
        anchors=dict(files=["starlit/src/"+f if not f.startswith("starlit") else f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Verdicts are only given at the end of a completed search step",
  "Solving reports 'satisfiable' only when the propagation that covers the complete current assignment just ended without a conflict and no unassigned variable is left to decide; it reports 'unsatisfiable' only when the formula was already contradictory or a conflict arose while no decision was in force. Every other conflict is analysed, and every variable picked for a decision is assigned, before the search takes its next step.",
  "inputs histories", "every formula and every sequence of propagations, conflicts, decisions, restarts and reductions of the search",
  "Unit tests drive propagation and conflict analysis on four tiny clause sets and never call solve; a wrong verdict needs a particular order of events inside a long search.",
  ["search.rs", "state.rs", "solver.rs", "prop/unit_prop.rs", "prop.rs"],
  [("search_step", "starlit/src/search.rs: search_step"), ("solve loop", "starlit/src/solver.rs: Solver::solve")],
  observe=["return value of Solver::solve"])

p("C02", "Every unassigned variable stays available for decisions",
  "At every point of the search each unassigned variable is in the pool from which decisions are drawn: it enters when the variable is introduced and again whenever its assignment is undone. The decision picker only returns unassigned variables and reports that none is left only when the pool is empty.",
  "inputs histories", "every history of assignments, backtracks and variable introductions",
  "No test exercises the decision heuristic at all; a lost variable shows up only as an incomplete model after a specific sequence of decisions and backtracks.",
  ["search/vsids.rs", "heap.rs", "search.rs", "prop/trail.rs"],
  [("lazy removal / eager re-insertion", "starlit/src/search/vsids.rs: pop_decision_var, unassign, resize"), ("heap membership", "starlit/src/heap.rs: enqueue, resize_enqueued")],
  state=[("decision pool", "superset of the unassigned variables", "starlit/src/search/vsids.rs: Vsids.activity")],
  observe=["Vsids::pop_decision_var", "MaxHeap::is_enqueued"])

p("C03", "Backtracking undoes exactly the assignments above the target level",
  "Backtracking to a level removes exactly the trail entries made above that level and, for each of them, clears the variable's value and tells every dependent component (decision pool, saved phases) about it. Afterwards the current level is the target level and nothing beyond the remaining trail counts as propagated; a target that is not below the current level is refused.",
  "inputs histories", "every trail, every target level",
  "Tests backtrack only inside three fixed conflict analyses with at most two levels and with empty callbacks.",
  ["prop/trail.rs", "search.rs", "search/phases.rs", "search/vsids.rs"],
  [("backtrack_to_level", "starlit/src/prop/trail.rs: backtrack_to_level"), ("callbacks", "starlit/src/search.rs: impl BacktrackCallbacks for Callbacks")],
  state=[("trail", "assignments in order with their decision boundaries", "starlit/src/prop/trail.rs: Trail")],
  observe=["Trail::steps", "Trail::decision_level", "Trail::propagated", "PartialAssignment::value"])

p("C04", "Values and trail move in lock-step and no variable is assigned twice",
  "A variable receives a value only together with one new trail entry for that same literal, whose recorded position is the entry's index, and a value is cleared only when its trail entry is removed. No operation assigns a variable that already has a value, whatever clauses are added (including repeated unit clauses).",
  "inputs histories", "every formula, including repeated and contradictory unit clauses, and every search history",
  "The only guard is a debug assertion, and the tests use formulas without input units.",
  ["prop/trail.rs", "prop.rs", "prop/unit_prop.rs", "conflict_analysis.rs", "partial_assignment.rs"],
  [("assign_raw", "starlit/src/prop/trail.rs: assign_raw"), ("guards at the assignment sites", "starlit/src/prop/unit_prop.rs, starlit/src/prop.rs: add_clause_verbatim")],
  observe=["Trail::steps", "Trail::trail_index", "PartialAssignment::value"])

p("C05", "Propagation processes every literal and every clause that mentions it",
  "Propagation finishes without a conflict only once every literal on the trail has been processed, and a literal counts as processed only after all binary clauses and all watched long clauses containing its negation were examined without conflict. For each examined clause that has become unit the remaining literal is assigned, and one that has become false is reported as the conflict.",
  "inputs histories", "every clause set and every partial assignment",
  "Four unit tests on fixed clause sets; skipping a clause or a queue entry needs a particular trail and watch list order to matter.",
  ["prop/unit_prop.rs", "prop/trail.rs", "prop/binary.rs", "prop/watch.rs"],
  [("propagation queue", "starlit/src/prop/unit_prop.rs: propagate; starlit/src/prop/trail.rs: next_unpropagated_lit, advance_propagated"), ("binary scan", "starlit/src/prop/unit_prop.rs: propagate_binary_clauses"), ("watch scan", "starlit/src/prop/unit_prop.rs: propagate_long_clauses")],
  observe=["result of propagate", "Trail::propagated"])

p("C06", "A long clause never loses a watch",
  "While the watch list of a falsified literal is scanned, an entry leaves the list only because its clause was deleted or because the watch moves to a non-false literal of the same clause, which at the same moment takes one of the two watched positions. An entry stays only if the clause has a literal found true, or has just propagated, or is reported as the conflict; and the scanned list is put back for the same literal on every exit.",
  "inputs histories", "every clause, watch list and assignment met during propagation",
  "A lost or misplaced watch causes a missed propagation only much later; the tests check one or two propagations after construction.",
  ["prop/unit_prop.rs", "prop/watch.rs", "util/mut_scan.rs"],
  [("watch scan", "starlit/src/prop/unit_prop.rs: propagate_long_clauses"), ("take/restore", "starlit/src/prop/watch.rs: Watches::take, restore, push_watch")],
  state=[("watched positions", "slots 0 and 1 of a long clause are its watched literals", "starlit/src/prop/watch.rs: Watches")],
  observe=["Watches", "LongClauses::lits"])

p("C07", "Every propagated assignment records the clause that implied it",
  "An implied assignment carries as reason the very clause that became unit: for a long clause the implied literal then stands first, for a binary clause the reason names its other, false literal, and its level is the current decision level. Decisions open a new level and carry no reason; input and learned units are recorded at the top level.",
  "inputs histories", "every propagation, decision and learned clause",
  "Conflict analysis reads reasons long after they are recorded; tests look at three recorded reasons in total.",
  ["prop/unit_prop.rs", "prop/trail.rs", "conflict_analysis.rs", "prop.rs"],
  [("reason recording", "starlit/src/prop/unit_prop.rs; starlit/src/conflict_analysis.rs: learn_and_assign"), ("reason reading", "starlit/src/prop/trail.rs: Reason::lits")],
  observe=["Trail::step_for_var", "Reason::lits"])

p("C08", "Conflict analysis leaves no scratch state behind",
  "After a conflict has been analysed, all temporary marks it uses (literal marks, level marks, redundancy cache, per-level first positions, traversal stack) are back in their neutral state, on every path through the analysis. The analysis of one conflict can therefore not influence the next.",
  "inputs histories", "every sequence of conflicts",
  "Each test analyses a single conflict with fresh buffers, so leftovers can never be seen.",
  ["conflict_analysis.rs", "glue.rs", "minimize.rs"],
  [("mark/unmark pairs", "starlit/src/conflict_analysis.rs: derive_1uip_clause, add_literal"), ("level flags", "starlit/src/glue.rs: compute_glue"), ("cache cleanup", "starlit/src/minimize.rs: minimize")],
  state=[("literal marks", "literals of the clause being derived", "starlit/src/conflict_analysis.rs: ConflictAnalysis.current_clause_lits"), ("redundancy cache", "cached redundancy per trail position", "starlit/src/minimize.rs: MinimizeClause.cache")],
  observe=["learned clauses of later conflicts"])

p("C09", "Every learned clause is logged to the proof, exactly as it is added",
  "Whenever proof logging is active, each learned clause of any length is written to the proof as an addition before it becomes part of the clause database, with exactly the literals that are stored. Clauses that are part of the input are never logged as additions.",
  "inputs histories configurations", "every learned clause of every run with proof logging on",
  "No test enables proof logging.",
  ["conflict_analysis.rs", "prop.rs", "proof.rs", "solver.rs"],
  [("learn_and_assign", "starlit/src/conflict_analysis.rs: learn_and_assign")],
  observe=["calls on the Proof writer", "proof file"])

p("C10", "Only redundant, unused clauses are deleted, and each deletion is logged",
  "Clause database reduction deletes only learned clauses that are not the reason of a current assignment and whose glue is above the core limit; protection of reason clauses is in force while candidates are selected and removed again afterwards. When proof logging is active each deletion is written with the clause's literals as they were before deletion.",
  "inputs histories configurations", "every clause database and trail at the time of a reduction",
  "Reduction is not exercised by any test; it needs thousands of conflicts.",
  ["search/reduce.rs", "clause_arena.rs", "prop/long.rs"],
  [("reduce", "starlit/src/search/reduce.rs: reduce, protect_clauses")],
  observe=["ClauseArena::next_clause after reduce", "calls on the Proof writer"])

p("C11", "An 'unsatisfiable' verdict with proof logging ends in the empty clause",
  "When solving with an active proof writer derives unsatisfiability, the empty clause has been written to the proof before the verdict is returned. This holds for a conflict found by propagation as well as for contradicting unit clauses.",
  "inputs configurations histories", "every unsatisfiable formula",
  "No test enables proof logging or reaches an unsatisfiable verdict through the solver.",
  ["search.rs", "prop.rs", "solver.rs"],
  [("top-level conflict", "starlit/src/search.rs: search_step"), ("contradicting units", "starlit/src/prop.rs: add_clause_verbatim")],
  observe=["calls on the Proof writer", "proof file"])

p("C12", "Proof I/O errors surface before a verdict is printed",
  "Closing a proof flushes all buffered steps and reports any write error that occurred at any earlier time. The command line tool closes the proof successfully before it prints a verdict or exits with a verdict status; an error leads to a failure status and no verdict.",
  "inputs fault_sequences", "every run with a proof file and every failing write",
  "No test covers the command line tool or a failing writer.",
  ["proof/drat.rs", "solver.rs", "starlit-cli/src/main.rs"],
  [("flush", "starlit/src/proof/drat.rs: Proof::flush"), ("close_proof", "starlit/src/solver.rs: close_proof"), ("main", "starlit-cli/src/main.rs: main")],
  observe=["exit status", "stdout", "result of Solver::close_proof"])

p("C13", "Proof steps are encoded as the DRAT format prescribes",
  "In the text format an addition is the clause's DIMACS literals in order, each followed by a space, then '0' and a newline, and a deletion is the same preceded by 'd '. In the binary format a step is 'a' or 'd', then for each literal the variable-length little-endian base-128 encoding of 2*variable (plus one if negative), then a zero byte.",
  "inputs", "every clause, including the empty one, and every literal up to the largest variable",
  "No test writes a proof.",
  ["proof/drat.rs", "lit.rs"],
  [("Drat", "starlit/src/proof/drat.rs: impl Proof for Drat"), ("BinaryDrat", "starlit/src/proof/drat.rs: BinaryDrat::write_lit")],
  observe=["bytes given to the writer"])

p("C14", "Garbage collection updates every stored clause reference",
  "Whenever clause storage is compacted, every clause reference kept in solver state is either rewritten to the clause's new place or dropped because the clause is gone; none is left pointing at the old place, and none is held in a local variable across a compaction.",
  "inputs histories", "every solver state in which a compaction runs",
  "Only the arena's own map is tested; that every holder of references is covered is a fact about all types in the program, including future ones.",
  ["prop.rs", "prop/trail.rs", "prop/watch.rs", "clause_arena.rs", "search.rs"],
  [("collect_garbage_now", "starlit/src/prop.rs: collect_garbage_now"), ("holders", "starlit/src/prop/trail.rs: update_clause_references; starlit/src/prop/watch.rs: update_clause_references")],
  observe=["Trail reasons", "Watches entries"])

p("C15", "Clause storage is never accessed out of bounds through the safe API",
  "Every safe operation on clause storage that takes a clause reference first establishes, in every build profile, that the reference denotes a stored clause, and then touches only that clause's header, length and literals; an invalid reference panics.",
  "inputs histories configurations", "every clause reference, valid, stale or foreign, and every operation order",
  "Tests only use valid references; undefined behaviour on an invalid one need not fail a test.",
  ["clause_arena.rs"],
  [("clause_len", "starlit/src/clause_arena.rs: clause_len and the *_unchecked accessors")],
  observe=["ClauseArena public functions"])

p("C16", "In clause storage only length words carry the marker bit",
  "Clause storage marks the length word of a clause by its top bit, and no safe operation (adding, shrinking, deleting, compacting, changing headers or literals) can set that bit in any other word, clear it in a live clause's length word, or make a stored length exceed the space that belongs to the clause.",
  "inputs histories", "every sequence of safe storage, header and literal operations",
  "Violations corrupt memory only for extreme values (31-bit lengths, header fields at their limits) that tests do not use.",
  ["clause_arena.rs", "lit.rs", "prop/long.rs"],
  [("HeaderWord", "starlit/src/clause_arena.rs: HeaderWord"), ("length words", "starlit/src/clause_arena.rs: add_clause, shrink_clause, delete_clause, collect_garbage")],
  observe=["ClauseArena public functions"])

p("C17", "Safe code can only create variables and literals in the documented range",
  "No safe public operation yields a variable whose index exceeds the documented maximum or a literal whose code exceeds the documented maximum, in any build profile; out-of-range arguments panic. The documented maxima leave the spare bits free that clause storage and sentinels rely on.",
  "inputs configurations", "every argument of every safe constructor and operator",
  "Tests construct small literals only, and run with debug assertions on.",
  ["lit.rs", "util/transparent.rs"],
  [("checked constructors", "starlit/src/lit.rs: from_index, from_dimacs, from_code, select_other"), ("MAX_*", "starlit/src/lit.rs: MAX_INDEX, MAX_CODE, MAX_DIMACS")],
  observe=["Var and Lit constructors"])

p("C18", "Literal codes, polarity, negation and DIMACS numbers agree",
  "For every literal: variable and polarity determine the code and are recovered from it, negation flips only the polarity, indexing by literal or by its variable addresses the same variable, and conversion to and from DIMACS numbers is lossless with the sign as polarity.",
  "inputs", "every variable and literal in range",
  "Tests touch a few dozen small literals.",
  ["lit.rs"],
  [("Lit, Var", "starlit/src/lit.rs")],
  observe=["Lit and Var methods"])

p("C19", "A partial assignment is a faithful three-valued map",
  "After assigning a literal, that literal reads true, its negation false and the variable assigned; after unassigning, or when a variable is new, both literals read as neither true nor false and the variable as unassigned. The four read operations agree with each other and no operation affects another variable.",
  "inputs histories", "every variable index and every order of operations",
  "The compact one-byte encoding depends on the low bits of the index; tests use a few variables.",
  ["partial_assignment.rs"],
  [("PartialAssignment", "starlit/src/partial_assignment.rs")],
  observe=["PartialAssignment methods"])

p("C20", "Packed header and score fields do not interfere",
  "Each packed field (clause flags, glue, use counter, reduction score parts) reads back what was last stored in it, saturated or truncated to its documented range, and storing one field leaves all other fields unchanged. Glue and use counter saturate rather than wrap.",
  "inputs histories", "every field value and every order of stores",
  "The header accessors have no tests of their own.",
  ["prop/long.rs", "clause_arena.rs", "search/reduce.rs", "starlit-macros/src/bitfield.rs"],
  [("HeaderWord fields", "starlit/src/clause_arena.rs: HeaderWord::{bit,set_bit,field,set_field}"), ("LongHeader layout", "starlit/src/prop/long.rs"), ("Bitfield derive", "starlit-macros/src/bitfield.rs")],
  observe=["LongHeader accessors", "Score accessors"])

p("C21", "The in-place vector scan keeps every item exactly once",
  "A scan over a vector yields each item once and in order; an item is in the vector afterwards iff it was put back or not yet reached, in order and without duplicates, and removed or dropped items are handed out or dropped exactly once. Leaking the scan or panicking inside it is memory safe.",
  "inputs histories", "every vector of items that occupy memory, every sequence of keep/remove/drop, early exit, panic or leak",
  "Used only indirectly by propagation tests with plain-data items.",
  ["util/mut_scan.rs"],
  [("MutScan", "starlit/src/util/mut_scan.rs: new, next, keep, remove, drop")],
  observe=["contents and length of the scanned Vec"])

p("C22", "The priority heap keeps its order and its position index",
  "Whatever sequence of enqueue, dequeue, increase, pop and resize is performed, the heap returns an enqueued key with the largest value, reports membership correctly and never loses or duplicates a key.",
  "inputs histories", "every operation sequence and every assignment of values",
  "One test enqueues, increases and pops in one order; dequeue and shrinking are never called.",
  ["heap.rs"],
  [("swap with index update", "starlit/src/heap.rs: swap!"), ("sift up/down", "starlit/src/heap.rs: move_towards_root, move_towards_leaves")],
  state=[("heap_pos", "inverse of heap", "starlit/src/heap.rs: MaxHeap.heap_pos")],
  observe=["MaxHeap::pop_max", "MaxHeap::is_enqueued"])

p("C23", "Introducing variables resizes every per-variable and per-literal table",
  "Before a clause with new variables is stored, every solver component that is indexed by variable or literal has been extended to cover them (two entries per variable where indexed by literal). No component is forgotten and tables never shrink when a clause is added.",
  "inputs histories programs", "every clause over any variables, in any order of introduction",
  "Tests size all tables once, by hand, before adding clauses.",
  ["solver.rs", "tracking.rs", "state.rs", "search.rs", "prop.rs", "prop/binary.rs", "prop/watch.rs", "prop/trail.rs", "partial_assignment.rs", "search/vsids.rs", "search/phases.rs"],
  [("Resize", "starlit/src/tracking.rs and its impls"), ("add_clause", "starlit/src/solver.rs: add_clause")],
  observe=["Solver::add_clause", "Solver::value"])

p("C24", "Decision scores stay finite, non-negative and order-preserving",
  "However many conflicts occur, every decision score and the score increment stay finite and never negative, so that comparing their bit patterns orders them like numbers; whenever a score or the increment passes the limit, all scores and the increment are scaled down by one common positive factor.",
  "inputs histories", "runs of any length",
  "Rescaling first happens after thousands of conflicts, far beyond any test.",
  ["search/vsids.rs", "heap.rs"],
  [("rescaling", "starlit/src/search/vsids.rs: bump_var, decay, rescale")],
  observe=["Vsids::pop_decision_var order"])

p("C25", "The command line verdict, model and exit status agree with the result",
  "For a satisfiable input the tool prints 's SATISFIABLE', then the value of every variable that has one on 'v' lines ending in 'v 0', and exits with status 10; for an unsatisfiable input it prints 's UNSATISFIABLE', no model, and exits with status 20. The printed literal of a variable is positive exactly if its value is true, and no value is skipped by line wrapping or by an unspecified variable count in the header.",
  "inputs", "every input file that is parsed successfully",
  "The command line tool has no tests.",
  ["starlit-cli/src/main.rs", "solver.rs"],
  [("main", "starlit-cli/src/main.rs: main"), ("value", "starlit/src/solver.rs: Solver::value")],
  observe=["stdout", "exit status"])

p("C26", "Unreadable input or an existing proof file never yields a verdict",
  "If an input or proof file cannot be opened, the proof file already exists, or the input is not a well-formed formula with a header, the tool fails with an error status before solving and prints no verdict; an existing proof file is never overwritten or truncated. Every clause of the input reaches the solver before solving starts.",
  "inputs fault_sequences", "every input file, path and file system state",
  "The command line tool has no tests.",
  ["starlit-cli/src/main.rs"],
  [("main", "starlit-cli/src/main.rs: main")],
  observe=["stdout", "exit status", "proof file"])

p("C27", "Logging observes the solver without influencing it",
  "Producing or suppressing log output never changes solver state or results. A message is emitted only if its level is enabled by the configured limit, and everything the logger prints is a comment line: it starts with 'c' and ends with a newline.",
  "inputs configurations histories", "every log level setting and every log statement",
  "Tests never enable logging.",
  ["log.rs", "report.rs", "starlit-macros/src/log.rs", "starlit-cli/src/main.rs"],
  [("level gate", "starlit/src/log.rs: Logger::log, set_log_level"), ("line format", "starlit/src/log.rs: perform_log")],
  observe=["stdout at each verbosity"])

p("C28", "Solving is deterministic",
  "The verdict, the model and the proof depend only on the formula and the options: no decision in the solver depends on time, randomness, memory addresses, environment, hash seeds or thread scheduling. Wall-clock time influences log output only.",
  "inputs configurations schedules", "every input and every environment",
  "A test runs once; dependence on time or addresses shows up only across runs.",
  ["log.rs", "report.rs", "search.rs", "state.rs", "starlit-cli/src/main.rs"],
  [("time is read only by the logger", "starlit/src/log.rs: Logger::time")],
  observe=["verdict, model, proof across runs"])

p("C29", "No recursion depth depends on the input",
  "Every recursive call chain in the solver has a fixed bound on its depth that does not depend on the formula, so that large inputs cannot overflow the stack.",
  "inputs", "every formula, of any size and implication depth",
  "A stack overflow needs implication chains of many thousands of literals.",
  ["minimize.rs"],
  [("depth limit and iterative fallback", "starlit/src/minimize.rs: literal_index_is_redundant_rec_uncached")],
  observe=["process survives"])

p("C30", "Every unsafe operation is covered by a discharged safety argument",
  "All uses of unchecked access, raw pointers, transmutes and unreachable hints are confined to the storage, scan and layout-conversion modules and to the traversal stack, and each is justified by a condition that holds on every path to it: representation-preserving conversions only between types of identical layout, lifetime changes only of an empty stack, unreachable hints only where unreachable. No safe public function exposes an unsafe one's precondition to its caller.",
  "inputs programs configurations", "every safe use of the library",
  "Undefined behaviour need not be visible in any test outcome.",
  ["clause_arena.rs", "util/mut_scan.rs", "util/transparent.rs", "minimize.rs", "lit.rs", "starlit-macros/src/transparent.rs"],
  [("unsafe blocks", "listed files")],
  observe=["safe public API"])

p("C31", "Every added clause is stored in full, according to its length",
  "Adding a clause never drops it or a literal of it: the empty clause makes the formula unsatisfiable; a unit clause is assigned, unless it already holds, or makes the formula unsatisfiable if its literal is false; a binary clause can be found from both of its literals; a longer clause is stored with all literals in the given order and is watched by its first two literals.",
  "inputs histories", "every clause and every state of the current assignment",
  "Tests add only binary and longer clauses of a few literals.",
  ["prop.rs", "prop/binary.rs", "prop/watch.rs", "clause_arena.rs", "solver.rs"],
  [("add_clause_verbatim", "starlit/src/prop.rs: add_clause_verbatim"), ("storage", "starlit/src/prop/binary.rs: add_clause; starlit/src/prop/watch.rs: watch_clause; starlit/src/clause_arena.rs: add_clause")],
  observe=["BinaryClauses::containing", "LongClauses::lits", "Watches"])

p("C32", "Clauses may be added at any time, also after solving",
  "Adding a clause after an earlier call of solve gives the same answers as adding it up front: no decision or implied value of the earlier search is mistaken for a fact of the formula, and implications of the new clause under already fixed values are found by the next solve.",
  "histories inputs", "every interleaving of add_clause and solve",
  "No test calls solve, let alone adds clauses afterwards.",
  ["solver.rs", "prop.rs", "prop/trail.rs"],
  [("add_clause", "starlit/src/solver.rs: Solver::add_clause")],
  observe=["return values of Solver::solve", "Solver::value"])

p("C33", "Restart and reduction schedules always make progress",
  "Each restart moves the next restart at least one conflict into the future and each reduction moves the next reduction threshold strictly up, so a restart or reduction can never be triggered again without further conflicts forever. A restart only backtracks to the top level and never undoes top-level assignments.",
  "inputs histories", "runs of any length",
  "Schedules only matter after hundreds of conflicts; tests check 64 terms of the Luby sequence alone.",
  ["state.rs", "state/luby.rs", "search.rs"],
  [("should_restart, should_reduce", "starlit/src/state.rs"), ("restart", "starlit/src/search.rs: restart"), ("LubySequence", "starlit/src/state/luby.rs")],
  observe=["SearchStats.restarts, SearchStats.reductions"])

p("C34", "Clause and variable counters match the clause database",
  "The reported numbers of binary, irredundant and redundant clauses change exactly when such a clause is added or deleted, by one each, and the number of fixed variables never exceeds the number of variables, so producing a progress report never fails.",
  "inputs histories", "every history of additions and deletions",
  "No test reads the counters or produces a report.",
  ["prop.rs", "search/reduce.rs", "prop/unit_prop.rs", "report.rs", "prop/trail.rs"],
  [("counter updates", "starlit/src/prop.rs: add_clause_verbatim; starlit/src/search/reduce.rs: reduce")],
  observe=["FormulaStats", "report output"])

p("C35", "Conflict analysis accounts for every literal it meets",
  "Starting from the conflicting clause and resolving only with recorded reasons of literals it removes, conflict analysis drops a literal only if it is false at the top level or already present, counts it if it belongs to the current level and otherwise keeps it for the learned clause. The learned clause is those kept literals plus the negation of the single remaining current-level literal, and each involved variable is reported to the decision heuristic.",
  "inputs histories", "every conflict and implication graph",
  "Three tests analyse one small conflict each.",
  ["conflict_analysis.rs", "prop/trail.rs"],
  [("derive_1uip_clause, add_literal", "starlit/src/conflict_analysis.rs")],
  observe=["learned clause"])

p("C36", "Learned clauses are stored with the right literals watched",
  "After a conflict the solver backtracks to the highest level among the learned clause's other literals, so that the first stored literal is the newly implied one and the second belongs to the backtrack level; unit clauses backtrack to the top level. The implied literal is assigned immediately after the clause is added.",
  "inputs histories", "every learned clause",
  "Three tests, each learning one clause.",
  ["conflict_analysis.rs", "minimize.rs", "prop/trail.rs"],
  [("backtrack level", "starlit/src/minimize.rs: minimize; starlit/src/conflict_analysis.rs: prepare_for_backtracking"), ("learn_and_assign", "starlit/src/conflict_analysis.rs")],
  observe=["Trail after analyze_conflict", "stored clause"])

p("C37", "Compaction moves live clauses intact and maps references correctly",
  "Compacting clause storage keeps every live clause with its header and literals in order, discards exactly the space of deleted clauses and dropped literals, and yields a map that sends each live clause's old reference to its new one and each deleted clause's reference to nothing.",
  "inputs histories", "every layout of live, shrunk and deleted clauses",
  "Two tests with six clauses and two hand-made maps.",
  ["clause_arena.rs"],
  [("collect_garbage", "starlit/src/clause_arena.rs: collect_garbage"), ("ClauseRefGcMap", "starlit/src/clause_arena.rs: ClauseRefGcMap::update")],
  observe=["ClauseArena::lits after collect_garbage", "ClauseRefGcMap::update"])

p("C38", "Storage accounting counts each released word once",
  "The number of words reported as used equals the words of live clauses after any sequence of additions, shrinks, deletions (also repeated deletion of one clause) and compactions, and iteration visits exactly the live clauses in order of addition.",
  "inputs histories", "every sequence of storage operations",
  "Tests never look at the accounting and never delete a clause twice.",
  ["clause_arena.rs"],
  [("garbage_count", "starlit/src/clause_arena.rs: shrink_clause, delete_clause, collect_garbage, utilization")],
  observe=["ClauseArena::utilization", "ClauseArena::next_clause"])
p("C39", "Verbosity options select exactly the enabled log levels",
  "The command line options determine the log level before the first message is logged: without options informational messages only are enabled, each -v adds one level (verbose, debug, trace) up to all of them, and -q suppresses all log output. Source locations are appended exactly if --log-src is given. These settings stay in force for every later message.",
  "inputs configurations", "every combination of options and every message of the run",
  "No test runs the tool or sets a log level.",
  ["starlit-cli/src/main.rs", "log.rs"],
  [("verbosity options", "starlit-cli/src/main.rs: Args, main; starlit/src/log.rs: set_log_level, log_source_locations, log")],
  observe=["starlit-cli standard output", "Logger::set_log_level", "Logger::log_source_locations"])

p("S01", "A satisfying assignment satisfies every clause ever added",
  "When solving reports 'satisfiable', every clause added so far contains a literal whose reported value is true.",
  "inputs histories", "all formulas, all searches",
  "No test calls solve.",
  ["solver.rs", "search.rs", "prop/unit_prop.rs"], [("CDCL search", "starlit/src/search.rs")], observe=["Solver::solve", "Solver::value"])
p("S02", "Unsatisfiable verdicts and learned clauses are logical consequences",
  "Every learned clause is implied by the clauses added so far by reverse unit propagation, and 'unsatisfiable' is only reported for formulas without a model.",
  "inputs histories", "all formulas, all searches",
  "Three tests check one learned clause each.",
  ["conflict_analysis.rs", "minimize.rs", "search.rs"], [("1-UIP learning and minimization", "starlit/src/conflict_analysis.rs, starlit/src/minimize.rs")], observe=["proof file", "Solver::solve"])
p("S03", "Solving terminates",
  "Solving returns a verdict after finitely many steps for every finite formula.",
  "inputs", "all formulas", "No test calls solve.",
  ["solver.rs", "state.rs", "search.rs"], [("CDCL with growing reduction intervals", "starlit/src/state.rs")], observe=["Solver::solve returns"])
p("S04", "Minimization removes exactly implied literals",
  "A literal is removed from a learned clause only if the implication graph shows it implied by the remaining literals, with the same result from the recursive and the iterative search.",
  "inputs", "all implication graphs", "No test looks at minimization beyond one literal.",
  ["minimize.rs"], [("literal_index_is_redundant_*", "starlit/src/minimize.rs")], observe=["learned clause"])
p("S05", "The restart sequence is the Luby sequence",
  "The restart intervals follow the Luby sequence for all terms.",
  "inputs", "all terms", "A test checks the first 64 terms.",
  ["state/luby.rs"], [("advance", "starlit/src/state/luby.rs")], observe=["restart intervals"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
