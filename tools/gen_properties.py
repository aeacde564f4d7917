#!/usr/bin/env python3
# Single source of properties.jsonl (kept as Python so that the long strings stay readable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Text solver never reports values that do not solve the system",
  "Whenever solving a plain-text equation system (nexsys language: equations, constants, guesses, domains, comments, unit conversions, conditionals) reports success for a consistent system, every equation whose variables are all reported holds at the reported values to within the requested margin, and every reported unknown with a declared domain lies inside that domain. This must hold whatever order the process's hash tables iterate in and whatever order the equations are written in.",
  ["inputs","schedules","configurations"],
  "every consistent system text, every equation order, every per-process hash iteration order, every margin and iteration limit",
  "One documented example and no tests of the solver loop; hash iteration order is random per process, so a test samples one order and cannot repeat it.",
  ["nexsys/src/lib.rs","nexsys/src/parsing/mod.rs","nexsys/src/parsing/conditionals.rs","nexsys/src/units/mod.rs","geqslib/src/lib.rs","geqslib/src/system.rs","geqslib/src/newton.rs","geqslib/src/shunting.rs"],
  [("single-equation and subsystem solve loop","nexsys/src/lib.rs: basic_solve"),("convergence test before a root is accepted","geqslib/src/newton.rs"),("domain clamping","geqslib/src/variable.rs")],
  [("equation pool","equations not yet solved","nexsys/src/lib.rs"),("context","values known so far, shared by reference between compiled equations","geqslib/src/context.rs")],
  ["nexsys::solve_with_preprocessors","nexsys::basic_solve"])

p("C02","Text solver solves every well-posed system, the same way every time",
  "A well-posed system made of equations that can be solved one after another (each with a simple root that Newton's method finds from the declared guess) and of simultaneous linear groups whose equations can be joined one new unknown at a time is solved completely within the iteration limit, whatever order its lines are written in. Solving the same text again - in another process, with another hash iteration order, or with its lines permuted - gives the same verdict, the same set of variables and the same values to within the margin's accuracy.",
  ["inputs","schedules"],
  "every triangular / block-triangular diagonally dominant system, every line order, every hash iteration order",
  "Tests run one order per process; failures that depend on the random hash seed show up as unexplained flakiness, and no test permutes equations.",
  ["nexsys/src/lib.rs","geqslib/src/system.rs","geqslib/src/newton.rs","gmatlib/src/lib.rs"],
  [("choice of the next solvable equation or subsystem","nexsys/src/lib.rs"),("jacobian built over hash-ordered columns","geqslib/src/newton.rs"),("matrix inversion","gmatlib/src/lib.rs")],
  [("hash order of the guess map","column order of the jacobian","geqslib/src/newton.rs")],
  ["nexsys::solve_with_preprocessors"])

p("C03","System builder bookkeeping survives any history, including rejections",
  "Over any sequence of attempts to add equations to a system, an equation is accepted exactly when the system is not yet fully constrained and the equation adds at most one new unknown; the reported unknowns are exactly those of the accepted equations, and the system counts as fully constrained exactly when equations and unknowns are equal in number. An attempt that is refused or fails (malformed equation, too many unknowns, already constrained) leaves no trace, so that the finished system still solves to the solution of precisely the accepted equations, with guesses and domains applied only to its own unknowns.",
  ["histories","fault_sequences","schedules"],
  "every interleaving of accepted, refused and malformed equations on one or several builders sharing a context, every hash iteration order",
  "Tests use two-equation happy paths; none fails an attempt and then goes on, and none adds an equation that introduces an unknown after the first.",
  ["geqslib/src/system.rs","geqslib/src/lib.rs","geqslib/src/shunting.rs"],
  [("constraint check and commit","geqslib/src/system.rs: try_constrain_with"),("bulk constraint loop","geqslib/src/system.rs: try_fully_constrain_with"),("compilation against the builder's context","geqslib/src/lib.rs")],
  [("system variables / equations / context","degree-of-freedom bookkeeping","geqslib/src/system.rs")],
  ["SystemBuilder::{new,try_constrain_with,try_fully_constrain_with,get_vars,is_fully_constrained,build_system}","System::{specify_variable,solve}"])

p("C04","Root finders accept only confirmed roots, even if the function misbehaves",
  "For any caller-supplied function or system of functions, a root finder that reports success returns a point at which the function values have magnitude within the margin and the remaining Newton step is within the margin. If an evaluation returns an error, that same error is what the caller gets; NaN or infinite values never turn into a reported root; a panic in the function passes through and leaves later calls unaffected; and the number of evaluations is bounded by the iteration limit.",
  ["inputs","fault_sequences"],
  "every function family, start point, margin and limit; errors, NaNs, infinities and panics injected at every possible evaluation",
  "Tests use total, well-behaved functions; none makes an evaluation fail part-way, and none checks the step criterion for flat or wrong-signed slopes.",
  ["geqslib/src/newton.rs","gmatlib/src/lib.rs"],
  [("acceptance test","geqslib/src/newton.rs"),("error propagation","geqslib/src/newton.rs"),("iteration limit","geqslib/src/newton.rs")],
  [("guess map","current iterate, perturbed and restored while differentiating","geqslib/src/newton.rs")],
  ["newton_raphson","multivariate_newton_raphson"])

p("C05","Compiled expressions mean standard arithmetic, however calls interleave",
  "A compiled expression called with values for its variables returns the value that ordinary arithmetic (usual precedence and associativity, unary minus, function calls, conditionals) gives the text at those values, each variable first clamped to its domain. The result does not depend on what other expressions compiled from the same context were evaluated before or in between, nor on evaluations that failed or panicked, nor on later changes to or disposal of the context.",
  ["inputs","histories","schedules","fault_sequences"],
  "every expression of the grammar, every interleaving of evaluations of several expressions sharing variables, failures injected at any point, every hash iteration order",
  "Tests evaluate each expression once from a fresh context and only with trailing function calls; shared mutable variables are never exercised by two expressions.",
  ["geqslib/src/shunting.rs","geqslib/src/context.rs","geqslib/src/variable.rs"],
  [("shunting yard","geqslib/src/shunting.rs: rpnify"),("postfix evaluation","geqslib/src/shunting.rs: eval_rpn_expression"),("shared variables","geqslib/src/context.rs")],
  [("shared variable cells","one reference-counted cell per variable, shared by all expressions of a context","geqslib/src/context.rs")],
  ["compile_to_fn_of_hashmap","compile_to_fn","eval_str","eval_str_with_context"])

p("C06","Equation-solver C interface: handles stay valid, nothing leaks or dangles",
  "For any sequence of calls through the equation-solver C interface, including calls that fail, a context, builder, system or result string stays valid and keeps its contents until the call documented to consume or free it; no memory is released twice, used after release, or left unreleased once every handle has been freed. Return codes and returned strings report the actual outcome: success only if the requested action took place, and otherwise the documented failure value, never a panic or abort.",
  ["histories","fault_sequences"],
  "every call sequence over several live handles, with failing calls (malformed or undecodable text, unsolvable systems, unknown variables) at any position",
  "No test calls the C interface at all.",
  ["geqslib/src/ffi.rs","geqslib/geqslib.h"],
  [("ownership transfer by raw pointers","geqslib/src/ffi.rs"),("panic containment","geqslib/src/ffi.rs: catch_unwind")],
  [("heap objects behind handles","context maps, builders, systems, strings","geqslib/src/ffi.rs")],
  ["extern C functions of geqslib","process allocator"])

p("C07","Matrix C interface: a failing call never invalidates or corrupts a matrix",
  "For any sequence of calls through the matrix C interface, including calls rejected for mismatched sizes, out-of-range indices or singularity, every matrix handle stays valid and (except for a failed inversion, which may change the matrix it was given) keeps its contents until it is freed. No memory is released twice, used after release or left unreleased once every handle is freed, and a rejected call returns the documented failure value instead of panicking or aborting.",
  ["histories","fault_sequences"],
  "every call sequence over several live matrices with rejected calls at any position",
  "No test calls the C interface; the changelog records past segfaults in exactly this code.",
  ["gmatlib/src/ffi.rs","gmatlib/src/trait_impls.rs","gmatlib/gmatlib.h"],
  [("borrowing a handle for one call","gmatlib/src/ffi.rs"),("panic containment","gmatlib/src/ffi.rs: catch_unwind")],
  [("matrix behind a handle","boxed matrix owned by the caller","gmatlib/src/ffi.rs")],
  ["extern C functions of gmatlib","process allocator"])

p("C08","Matrix operations agree with textbook linear algebra over any history",
  "After any sequence of in-place and value-producing matrix operations, every element of every live matrix equals what textbook matrix algebra gives for that sequence, operands that an operation does not name as its target are unchanged, and an operation that is rejected (wrong shape, index out of range) changes nothing. Inversion succeeds for well-conditioned matrices of any size and then yields the inverse, and it reports an error for matrices with a zero row or column or two equal rows.",
  ["histories","inputs","fault_sequences"],
  "every operation sequence over a pool of matrices of any shape, rejected operations injected at any position, through the Rust and the C interface",
  "Doc examples use identity matrices, for which e.g. row and column operations coincide; inversion is tested on three matrices.",
  ["gmatlib/src/lib.rs","gmatlib/src/trait_impls.rs","gmatlib/src/ffi.rs"],
  [("row operations, products, inversion","gmatlib/src/lib.rs"),("operators and bounds checks","gmatlib/src/trait_impls.rs")],
  [("row-major storage","one contiguous vector per matrix","gmatlib/src/lib.rs")],
  ["Matrix<T> public API"])

p("C09","Text-solver C interface: sessions accumulate results and survive failures",
  "In any sequence of solves through the text-solver C interface that share a context and a set of declared variables, a successful solve returns a text listing every known value and later solves see the values found earlier as known; a failing solve returns null and leaves the session usable. No call sequence releases memory twice, uses released memory, leaks once all handles are freed, or lets a panic escape.",
  ["histories","fault_sequences","schedules"],
  "every sequence of successful, failing and panicking solves over shared and separate sessions, every hash iteration order",
  "No test calls this interface, and none solves twice with the same context.",
  ["nexsys/src/ffi.rs","nexsys/src/lib.rs","geqslib/src/ffi.rs"],
  [("panic containment and result strings","nexsys/src/ffi.rs"),("values carried over in the context","nexsys/src/lib.rs")],
  [("session context and declarations","known values, guesses and domains kept across calls","nexsys/src/ffi.rs")],
  ["extern C functions of nexsys","process allocator"])

p("C10","Callers on different threads never affect one another",
  "When several threads use the libraries at the same time on their own objects (expressions, equations, systems, text solves, unit conversions, matrices, networks), each call returns what it returns when its thread runs alone, whatever the interleaving, including during first-use initialisation and while other threads' calls fail. No interleaving deadlocks.",
  ["schedules","histories","fault_sequences"],
  "every interleaving of the threads at allocation and lock granularity, from a cold process",
  "The test runner's threads are scheduled by the kernel; no test runs the same work under chosen interleavings or compares it with a solo run.",
  ["geqslib/src/shunting.rs","nexsys/src/parsing/mod.rs","nexsys/src/parsing/conditionals.rs","nexsys/src/units/mod.rs","geqslib/src/lib.rs","neapolitan/src/lib.rs","gmatlib/src/lib.rs"],
  [("no shared mutable state; lazily initialised tables","lazy_static items in geqslib and nexsys")],
  [("lazily built regexes and unit tables","process-wide, initialised on first use","nexsys/src/units/mod.rs")],
  ["public Rust API of all crates"])

p("C11","Network studies report only physically consistent results",
  "Whenever a network study succeeds, the flux reported for each element equals its law applied to the reported node potentials, every node that is not held at a fixed potential is in flux balance to within tolerance (sources carry what balances the node they drive), fixed nodes keep their configured potential, and each source holds its prescribed potential difference. This holds for every topology, element order, element orientation and hash iteration order, for circuits and heat-transfer networks alike.",
  ["inputs","schedules"],
  "every network of resistive elements, flux sources and potential sources in either orientation and any listing order; every hash iteration order",
  "The one study test prints its result and asserts nothing about it.",
  ["neapolitan/src/lib.rs","neapolitan/src/flux_formulas.rs","neapolitan/src/dc_circuits.rs","neapolitan/src/heat_transfer.rs","neapolitan/src/modelling/node.rs","neapolitan/src/modelling/element.rs","geqslib/src/newton.rs"],
  [("nodal balance residuals","neapolitan/src/lib.rs: run_study"),("driven nodes refreshed by observing flux","neapolitan/src/flux_formulas.rs")],
  [("node potentials","shared mutable cells updated by residual evaluation and by sources","neapolitan/src/modelling/node.rs")],
  ["NodalAnalysisStudyBuilder::run_study (serialised result)"])

p("C12","Every well-posed network is solved, identically on every run",
  "A network in which every node is connected through resistive elements or sources to a fixed potential, without conflicting sources (each source, in listed order, finds an end that is not already held), is solved within the default iteration limit whatever its size, and repeating the study - in another process, under another hash iteration order, or with nodes renumbered or elements listed in another order - gives the same potentials and fluxes to within tolerance.",
  ["inputs","schedules"],
  "every connected grounded network, every hash iteration order, every listing order",
  "The only study test has two unknown nodes, too few for the order-dependent elimination path to run at all.",
  ["neapolitan/src/lib.rs","geqslib/src/newton.rs","gmatlib/src/lib.rs"],
  [("jacobian over hash-ordered unknowns","geqslib/src/newton.rs"),("elimination","gmatlib/src/lib.rs")],
  [("hash order of unknowns","decides the column order of the jacobian","geqslib/src/newton.rs")],
  ["NodalAnalysisStudyBuilder::run_study"])

p("C13","A failing custom element aborts the study with its own error",
  "When an element type supplied by the user fails - its constructor or any of its flux evaluations returns an error, at any point of the study - the study returns that error and no result; NaN or infinite fluxes into a node whose potential has to be found never lead to a reported solution. Custom element types of any number of components per node behave, fault-free, according to the same balance laws as built-in ones, and a failed study does not affect later studies.",
  ["fault_sequences","histories","schedules"],
  "every failure position in construction and evaluation, networks of custom elements with one or more components, every hash iteration order",
  "No test registers a custom element, uses more than one component per node, or makes an element fail.",
  ["neapolitan/src/lib.rs","neapolitan/src/modelling/element.rs","neapolitan/src/modelling/node.rs","geqslib/src/newton.rs"],
  [("error propagation from flux calculation to study","neapolitan/src/lib.rs: run_study"),("type registration","neapolitan/src/lib.rs: add_element_type")],
  [("element registry","element constructors by name","neapolitan/src/lib.rs")],
  ["NodalAnalysisStudyConfigurator","NodalAnalysisStudyBuilder::run_study"])

p("C14","A saved network model is complete: reloading it repeats the study",
  "Saving a model at any point while it is being built and later rebuilding the study from only the saved text gives a study with the same outcome as running the original at that point, and saving the reloaded model again describes the same model. Building steps that are rejected (unknown node, unknown model type, duplicate element name) are reported as errors.",
  ["histories","crash_points","schedules"],
  "every building history, every save point followed by loss of the in-memory state, every hash iteration order of the model's tables",
  "The only test saves a model, prints it and never reads it back.",
  ["neapolitan/src/lib.rs","neapolitan/src/modelling/mod.rs"],
  [("model serialisation","neapolitan/src/modelling/mod.rs"),("builder","neapolitan/src/lib.rs")],
  [("model","model type, node count, node configuration, elements","neapolitan/src/modelling/mod.rs")],
  ["NodalAnalysisStudyBuilder::save_model","NodalAnalysisModel parsing"])

p("C15","Network command-line tool: success means a complete, correct result file",
  "The network solver command exits with status 0 only if the complete, correct solution of the model it was given is in the solution file, even when reads or writes are interrupted, short, fail or run out of space; on any failure it exits with a non-zero status. It never alters its input file or any other file, and after a failed or killed run, running it again without faults produces the correct result.",
  ["fault_sequences","crash_points","schedules","configurations"],
  "every placement of read/write/open errors, short and interrupted transfers, full disk and kill during a run or series of runs; valid and invalid models; any file name and option order; every hash order",
  "No test runs the command; I/O errors and crashes cannot be produced by ordinary tests.",
  ["neapolitan/src/main.rs","neapolitan/src/lib.rs"],
  [("read, solve, write, exit status","neapolitan/src/main.rs")],
  [("solution file","result next to the model file","neapolitan/src/main.rs")],
  ["process exit status","file system"])

p("C16","Text-solver command-line tool: success means the full result was delivered",
  "The text solver command exits with status 0 only if its complete, correct report reached the terminal or, when a result file is requested, the result file, even when reads or writes are interrupted, short, fail or run out of space; on any failure it exits with a non-zero status. It never alters its input file or any other file, it obeys the margin and iteration options, and after a failed or killed run, running it again without faults produces the correct result.",
  ["fault_sequences","crash_points","schedules","configurations"],
  "every placement of read/write/open errors, short and interrupted transfers, full disk, closed output and kill; any file name and option order; every hash order",
  "No test runs the command; I/O errors and crashes cannot be produced by ordinary tests.",
  ["nexsys/src/main.rs","nexsys/src/lib.rs"],
  [("read, solve, report, exit status","nexsys/src/main.rs")],
  [("report","values and procedure log","nexsys/src/main.rs")],
  ["process exit status","standard output","file system"])

p("C17","User interface: panel and tab contents survive any sequence of clicks",
  "Whatever sequence of clicks and file-tab operations a user performs, switching between the Files and Model panels always shows the content that belongs to the selected panel and loses none of it (file items being added while the Files panel is shown); every open file has exactly one tab, and closing a tab removes that tab and no other. Element ids handed out by the application are never reused while in use.",
  ["histories","schedules"],
  "every sequence of user events (clicks on panel tabs, file items, close buttons) and application operations",
  "There are no user-interface tests at all; the properties concern arbitrary event orders.",
  ["ngineer_js/src/panelManager.ts","ngineer_js/src/tagbuilder.ts","ngineer_js/src/leftRibbonMenu.ts","ngineer_js/src/common.ts","ngineer_js/src/index.ts","ngineer_js/src/debugRibbon.ts"],
  [("saved panel contents","ngineer_js/src/panelManager.ts"),("id registry and tag getters","ngineer_js/src/tagbuilder.ts")],
  [("panel states","saved inner HTML per panel","ngineer_js/src/panelManager.ts"),("registered ids","set of ids in use","ngineer_js/src/tagbuilder.ts")],
  ["DOM after each event"])

p("C18","Unit conversion factors are physically correct and coherent",
  "Converting between any two units of the same quantity uses the ratio of their definitions, conversion there and back is the identity, and derived units (areas, volumes, velocities, flows) follow from their base units.",
  ["inputs"],"every pair of units in the table",
  "The single conversion test checks three pairs.",
  ["nexsys/src/units/mod.rs","nexsys/src/units/units.json"],
  [("table generation","nexsys/src/units/mod.rs: unit_data")])

p("C19","The language preprocessor rewrites text without changing its meaning",
  "Removing comments, declarations and constants and rewriting conditionals never alters any other part of the program text, for every program.",
  ["programs"],"every nexsys program text",
  "Tests rewrite a handful of fixed snippets.",
  ["nexsys/src/parsing/mod.rs","nexsys/src/parsing/conditionals.rs"],
  [("regex based rewriting","nexsys/src/parsing")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
