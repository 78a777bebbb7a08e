#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=list(obs)
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,
      quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

IDE="ide/src/"
TS_WHY="The extension's own tests need a live VS Code and network, are not part of the suite and drive one fixed click sequence; "

p("C01","Focus highlights settle on the current selection and text",
  "Once all pending activity has finished while focus mode is on and the active Rust file is saved and was analysed successfully, the highlighted and dimmed text in the active editor is exactly the slice that the analyser reports, for the saved text of this and the other files of the project, for the user's current selection (or the mark if one is set) within the function containing it. This holds whatever the user did, in whatever order, while analyses were still running.",
  ["schedules","histories"],
  "every sequence of cursor moves, edits, saves, editor switches and focus commands, interleaved in every way with the steps of the analyser processes they start",
  TS_WHY+"no test moves the cursor, edits or saves while an analysis is in flight.",
  [IDE+"focus.ts",IDE+"range.ts",IDE+"decorations.ts"],
  [("FocusMode.update_slice / FocusDocumentState / FocusBodyState",IDE+"focus.ts"),("RangeTree.search",IDE+"range.ts")],
  [("FocusMode.state","per-document function ranges and per-function slices",IDE+"focus.ts"),("FocusMode.mode","focus-mode state machine",IDE+"focus.ts")],
  ["TextEditor.setDecorations as recorded by the simulated editor at quiescence"])
p("C02","No highlight is ever painted for text that has since changed",
  "At no moment does any visible editor show a focus-mode highlight or dimming that was computed for a different version of the text than the one displayed: an edit removes the highlights at once, and results of analyses started before the edit are never painted.",
  ["schedules","histories"],
  "every interleaving of edits, saves and undo with the start, disk read, output and exit of every analyser process",
  TS_WHY+"a stale paint needs an edit to land between the start and the end of an asynchronous analysis.",
  [IDE+"focus.ts",IDE+"decorations.ts"],
  [("document-change handler clears state and ranges",IDE+"focus.ts"),("save handler re-analyses",IDE+"focus.ts")],
  [("FocusMode.state","cached analysis results",IDE+"focus.ts")],
  ["decorations of all visible editors after every simulated event"])
p("C03","Turning focus mode off clears it and it stays off",
  "After the user turns focus mode off, no visible editor keeps or later receives any focus highlight, cursor moves start no further analysis, the build-error pane is closed and the status shows idle once running analyses end, until the user turns focus mode on again; turning it off and on any number of times behaves like turning it on once.",
  ["schedules","histories"],
  "every toggle placed at any point of any in-flight analysis, repeated any number of times, mixed with other user actions",
  TS_WHY+"toggling during an in-flight analysis is never exercised.",
  [IDE+"focus.ts",IDE+"errors.ts"],
  [("focus toggle, dispose_callbacks, clear_ranges",IDE+"focus.ts"),("hide_error",IDE+"errors.ts")],
  [("FocusMode.mode","idle when off",IDE+"focus.ts"),("selection_change_callback","live event subscription",IDE+"focus.ts")],
  ["decorations, spawned processes, error pane and status bar after a toggle-off"])
p("C04","A function is analysed once per saved version of its file",
  "As long as the text does not change, once a function's slices have been delivered, moving the cursor, marking, unmarking or selecting inside that function reuses them and starts no analyser process; nothing is analysed twice unless something was edited, saved or toggled in between. An edit to the file invalidates them so that the next use after a save analyses afresh, and moving the cursor in a file with unsaved changes neither saves nor analyses it.",
  ["schedules","histories"],
  "every sequence of cursor moves and commands over several functions and files, with edits and saves in between",
  TS_WHY+"process starts are never counted across a history.",
  [IDE+"focus.ts"],
  [("Cell cache per function range, Map per document",IDE+"focus.ts")],
  [("FocusDocumentState.bodies","interval tree of lazily loaded per-function results",IDE+"focus.ts")],
  ["log of spawned analyser processes"])
p("C05","Marks pin the slice and select extends the selection to it",
  "After a mark is set the highlighted slice stays that of the marked selection while the cursor moves within the function, removing the mark returns to following the cursor, and a mark never outlives an edit of the text it was set in. The select command sets the editor's selections to exactly the ranges of the current slice.",
  ["histories","schedules"],
  "every history of mark, unmark, select, cursor-move, edit, save and toggle commands, with analyses completing at any point in between",
  TS_WHY+"marks are tested on a single hand-written sequence only.",
  [IDE+"focus.ts"],
  [("set_mark / unset_mark / select, find_slice_at_selection",IDE+"focus.ts")],
  [("FocusBodyState.mark","pinned selection",IDE+"focus.ts")],
  ["decorations and editor.selections after each command"])
p("C06","Analysis failures surface and focus mode recovers; it never hangs",
  "Whatever way an analysis fails (build error, crash, kill, spawn failure, truncated or garbage output, failed save), focus mode ends in a visible error state rather than staying in loading, a user-initiated request shows the error, and no slice is painted from a failed result; the command that shows the last error shows the last one, and the error pane is closed by the next success. Once the cause is gone, saving an edited file, or turning focus mode off and on, brings back correct highlights without restarting the editor.",
  ["fault_sequences","schedules","histories"],
  "every sequence of analyser-process faults placed at any invocation, followed by any recovery action",
  TS_WHY+"only one build-error scenario is scripted; crashes, kills, torn output and failing saves are not injected.",
  [IDE+"focus.ts",IDE+"errors.ts",IDE+"setup.ts"],
  [("handle_analysis_result, get_doc_state error paths",IDE+"focus.ts"),("ErrorPane",IDE+"errors.ts")],
  [("FocusMode.mode","error / loading / active",IDE+"focus.ts"),("ErrorPane.editor","whether the pane is open",IDE+"errors.ts")],
  ["status bar, error pane, message dialogs and decorations at quiescence"])
p("C07","Every analyser invocation yields its exact result or a typed failure",
  "For every way an analyser process can behave, the invocation finishes with exactly one outcome: the value the analyser sent if the process exited successfully with a complete message, the analyser's own typed error if it sent one, a build error carrying the process's diagnostics if it failed or could not start, and an analysis error otherwise. How the operating system splits, delays or interleaves the output never changes the outcome, and the file is saved before the analyser is started.",
  ["fault_sequences","schedules"],
  "every process exit status, signal, spawn error, output content, output truncation and chunking, and every ordering of output, error and exit events",
  TS_WHY+"process output chunking and process deaths are left to the operating system.",
  [IDE+"setup.ts",IDE+"errors.ts"],
  [("exec_notify_binary and the closure returned by setup",IDE+"setup.ts")],
  [],["result of a simulated analyser invocation, as rendered by the extension; stored last error"])
p("C08","Activation installs the matching analyser or reports failure",
  "When the installed analyser's version equals the extension's, activation installs nothing; otherwise it installs the toolchain, then tries the prebuilt binaries and falls back to building from source at exactly the extension's version. Whatever step fails, activation either finishes with each command registered exactly once and a matching analyser installed, or registers none and tells the user (or was declined by the user), and it never hangs or ends with a mismatched analyser in use.",
  ["fault_sequences","crash_points"],
  "every combination of failures of rustup, rustc, the network download, archive extraction, permission change and cargo, every user answer, and re-activation after a crash at any step",
  TS_WHY+"installation runs against the real network once, on the success path.",
  [IDE+"setup.ts",IDE+"download.ts",IDE+"extension.ts"],
  [("setup, download, activate",IDE+"setup.ts")],
  [],["simulated toolchain/binary store, registered commands and dialogs after activation"])
p("C09","The workspace root is the outermost Cargo project on the way to the file",
  "The directory in which the analyser runs is the workspace folder if that contains a Cargo manifest, and otherwise the outermost directory on the path from the folder to the active file that contains one; if there is none, activation declines quietly. This is independent of the order and latency in which the file system answers and of failing lookups elsewhere.",
  ["schedules","configurations","fault_sequences"],
  "every directory layout, every active file depth and every order in which concurrent file-system probes complete or fail",
  TS_WHY+"only workspaces with a manifest at the top are opened.",
  [IDE+"setup.ts"],[("findWorkspaceRoot",IDE+"setup.ts")],[],["cwd of the analyser processes spawned"])
p("C10","The status bar tells the truth once activity settles",
  "When nothing is pending, the status bar shows idle exactly when focus mode is off, active when the current file's slice is up to date, unsaved while the active file has unsaved changes, error after a failed analysis and not-found when the file is outside the Cargo project; it never remains in loading.",
  ["schedules","fault_sequences","histories"],
  "every history of user actions and analyser outcomes with every interleaving of concurrent analyser processes",
  TS_WHY+"the status item is not inspected, and concurrent invocations overwrite it in completion order.",
  [IDE+"status_bar.ts",IDE+"focus.ts",IDE+"setup.ts"],
  [("set_mode / StatusBar.set_state",IDE+"focus.ts"),("exec_notify_binary status updates",IDE+"setup.ts")],
  [],["simulated status bar item at quiescence"])

FL="crates/flowistry/src/"
p("C11","The dataflow fixpoint is closed and does not depend on visit order",
  "For every function and every monotone forward analysis, the solver terminates, and the state it computes for each instruction is exactly the effect of that instruction on the join of its predecessors' states (or on the entry state), so that re-applying any instruction anywhere changes nothing; this result is the same in whatever order pending instructions are processed.",
  ["schedules","programs"],
  "every processing order of the pending-instruction queue, on every control-flow graph including loops, early returns, unreachable and never-returning code",
  "the tests run one fixed processing order on a few dozen programs and compare final slices only, so a solver that stops early or drops a propagation on other graphs passes.",
  [FL+"mir/engine.rs",FL+"infoflow/analysis.rs"],
  [("iterate_to_fixpoint work queue",FL+"mir/engine.rs")],
  [("state","one lattice element per instruction",FL+"mir/engine.rs"),("dirty_queue","pending instructions",FL+"mir/engine.rs")],
  ["AnalysisResults.state_at for all locations"],
  "cfg-guarded choice of which pending location the engine pops")
p("C12","A backward slice contains every statement that can change the value",
  "If altering the value produced at some statement, or the outcome of some branch, during an execution of a (safe, terminating) function can change the value that a variable holds at a program point (reached with or without the change), then that statement or branch is in the backward slice of that variable at that point. It holds through assignments, fields, references and reborrows, boxes, arrays, enums, loops, early exits and calls.",
  ["programs","inputs","fault_sequences"],
  "every safe function, every input, and every corruption of an intermediate value or branch decision at any moment of its execution",
  "the 90-odd hand-written cases each pin one slice of one program; whether a slice misses a real influence on other programs or executions is never checked.",
  [FL+"infoflow/analysis.rs",FL+"infoflow/dependencies.rs",FL+"infoflow/mutation.rs",FL+"mir/aliases.rs",FL+"mir/placeinfo.rs"],
  [("transfer_function, influences, deps_for",FL+"infoflow/analysis.rs"),("ModularMutationVisitor",FL+"infoflow/mutation.rs"),("Aliases",FL+"mir/aliases.rs")],
  [],["compute_dependencies(Backward) on real MIR versus fault propagation in a simulated execution"],
  None)
p("C13","A forward slice contains every statement the value can affect",
  "If altering the value produced at a statement during an execution of a (safe, terminating) function can change the value written by a later statement or the way a later branch goes, then that later statement or branch is in the forward slice of the altered place at that statement.",
  ["programs","inputs","fault_sequences"],
  "every safe function, every input and every corruption of an intermediate value at any moment of its execution",
  "forward slices are pinned for about five hand-written programs.",
  [FL+"infoflow/dependencies.rs",FL+"infoflow/analysis.rs"],
  [("TargetDeps and the forward pass of compute_dependencies",FL+"infoflow/dependencies.rs")],
  [],["compute_dependencies(Forward) on real MIR versus fault propagation in a simulated execution"],None)
p("C14","An answer does not depend on what was analysed before it",
  "Within one compiler session, the result of analysing a function or of asking for a slice is the same whichever functions were analysed, whichever slices were requested and whichever analysis modes were used earlier in the session, and the same as in a fresh session.",
  ["histories","schedules"],
  "every history of analyses, queries, repeated queries and mode changes in one session",
  "each test analyses one function in a fresh session and asks one question.",
  [FL+"infoflow/mod.rs",FL+"mir/placeinfo.rs",FL+"infoflow/recursive.rs",FL+"extensions.rs"],
  [("place caches",FL+"mir/placeinfo.rs"),("BODY_STACK and recurse_cache",FL+"infoflow/mod.rs"),("EVAL_MODE dynamic scope",FL+"extensions.rs")],
  [("aliases_cache etc.","memo tables filled by earlier queries",FL+"mir/placeinfo.rs"),("BODY_STACK","call chain being analysed",FL+"infoflow/mod.rs")],
  ["slices returned to a simulated client in arbitrary request order"],None)
p("C15","An aborted analysis leaves no trace on later ones",
  "If an analysis is aborted at any point (cancellation or a panic unwinding out of it), every later analysis in the same thread or session returns exactly what it would have returned had the aborted one never been started.",
  ["crash_points","histories"],
  "every point at which an analysis can be unwound and every later request",
  "no test interrupts an analysis.",
  [FL+"infoflow/mod.rs",FL+"mir/engine.rs",FL+"infoflow/recursive.rs"],
  [("push/pop of the in-progress stack",FL+"infoflow/mod.rs")],
  [("BODY_STACK","thread-local stack of functions being analysed",FL+"infoflow/mod.rs")],
  ["results after an injected unwind"],
  "cfg-guarded fault point in the engine loop")
p("C16","Concurrent sessions do not affect each other",
  "Analyses running at the same time in separate compiler sessions of one process, under different analysis modes, each return what they return when run alone, for every interleaving of their steps.",
  ["schedules","configurations"],
  "every interleaving at analysis-step granularity of two or more sessions with different modes",
  "the test runner's threads interleave by chance, all under default modes.",
  [FL+"extensions.rs",FL+"infoflow/mod.rs",FL+"mir/engine.rs"],
  [("dynamically scoped mode and thread-local stack",FL+"extensions.rs")],
  [("EVAL_MODE","mode in force",FL+"extensions.rs")],
  ["results of each session"],
  "cfg-guarded yield point in the engine loop")
p("C17","Output is reproducible across memory layouts and hash seeds",
  "For the same source and request, the analyser reports the same set of places, and for each the same slice and direct influences, whatever the addresses of its allocations and the seeds of its hash tables.",
  ["schedules","configurations"],
  "every allocator layout and every seed of randomised hashing",
  "tests run once per build, with whatever layout and hash seed the process got.",
  ["crates/flowistry_ide/src/focus/mod.rs",FL+"mir/placeinfo.rs",FL+"mir/aliases.rs"],
  [("caches keyed by normalised place, hash-ordered iteration",FL+"mir/placeinfo.rs"),("into_group_map",  "crates/flowistry_ide/src/focus/mod.rs")],
  [],["decoded message of the real driver process under a seeded allocator and entropy source"],None)
p("C18","The analyser process delivers its answer or reports failure",
  "Whatever input/output fault happens while the analyser process runs (failed, short or interrupted reads and writes, full output device, closed pipe), the process either exits successfully having delivered the complete and correct message, or exits with a failure status; it never exits successfully with a missing, partial or wrong answer. Likewise a preload exits successfully only if the compilation it starts did, however that ended.",
  ["fault_sequences","crash_points"],
  "every single or repeated fault of any system call that reads sources or writes the answer",
  "no test injects a system-call fault or inspects exit statuses.",
  ["crates/flowistry_ide/src/plugin.rs","crates/flowistry_ide/src/spans.rs","crates/flowistry_ide/src/focus/mod.rs"],
  [("postprocess",  "crates/flowistry_ide/src/plugin.rs")],
  [],["exit status and standard output of the real driver process under an interposed libc"],None)
p("C19","The security checker reports every real secure-to-insecure flow",
  "If altering a value of a type declared secure during an execution of a function can change a value of a type declared insecure in that function, the security checker reports an insecure flow located in that function, and it prints its all-clear only when no function had one; every crate that compiles gets a verdict.",
  ["programs","inputs","fault_sequences"],
  "every safe function, every input and every corruption of secure data at any moment of its execution",
  "the checker has no tests at all.",
  ["crates/flowistry_ifc/src/analysis.rs","crates/flowistry_ifc/src/lib.rs"],
  [("analyze, IfcVisitor","crates/flowistry_ifc/src/analysis.rs")],
  [],["report of the real checker on simulated programs"],None)
p("C20","Whole-program mode terminates and keeps every real influence",
  "When the analyser looks into the bodies of called functions, it terminates on every call graph, including direct and mutual recursion, and still reports every statement of the function under analysis whose alteration during an execution can change the queried value.",
  ["programs","inputs","fault_sequences"],
  "every call graph over local functions, every input, every corruption of an intermediate value",
  "eight hand-written programs exercise this mode; recursion appears in one.",
  [FL+"infoflow/recursive.rs",FL+"infoflow/mod.rs"],
  [("recurse_into_call",FL+"infoflow/recursive.rs")],
  [("BODY_STACK","recursion guard",FL+"infoflow/mod.rs")],
  ["backward slices in whole-program mode versus fault propagation in a simulated execution"],None)
p("C21","Every request is answered afresh, whatever happened before in the workspace",
  "The answer to a request made with cargo-flowistry is that of the same request in a workspace with the same sources in which nothing has happened yet, whatever requests, repeated requests, edits, preloads, killed or failed analyses preceded it and whichever other request runs at the same time; in particular a repeated request is answered in full again.",
  ["histories","crash_points","fault_sequences","schedules"],
  "every history of requests, edits, crashes and overlapping requests in one workspace",
  "no test runs cargo-flowistry, let alone twice in the same workspace; cargo silently skips work it takes to be done.",
  ["crates/flowistry_ide/src/plugin.rs","crates/flowistry_ide/src/spans.rs","crates/flowistry_ide/src/bin/cargo-flowistry.rs"],
  [("Callbacks::after_analysis stops the compilation before anything is written","crates/flowistry_ide/src/plugin.rs")],
  [("target directory","cargo's record of what is up to date","crates/flowistry_ide/src/plugin.rs")],["exit status and message of cargo-flowistry"],None)
p("C22","A focus answer shows every real influence in the source text",
  "The answer to a focus request at any position inside a function is about that function and has an entry for every occurrence of a place in its source text; the slice of an occurrence covers the source text of every statement whose alteration during an execution can change the value there and of every statement whose effect an alteration of that value can change; the direct influences of an occurrence cover the text of every scalar assignment to the memory it denotes and of every assignment that reads that very place, where they influence it or are influenced by it. The answer to a request for the functions of a file lists every function of it. Every request for a crate that compiles is answered.",
  ["programs","inputs","fault_sequences"],
  "every function, every position in it, every occurrence, every analysis mode, every execution and corruption of a value",
  "tests compare slices of hand-written programs as printed by the library's test harness; none looks at the plugin's message, direct influences or the list of functions.",
  ["crates/flowistry_ide/src/focus/mod.rs","crates/flowistry_ide/src/focus/direct_influence.rs","crates/flowistry_ide/src/spans.rs","crates/flowistry_ide/src/plugin.rs",FL+"infoflow/dependencies.rs"],
  [("focus","crates/flowistry_ide/src/focus/mod.rs"),("compute_dependency_spans",FL+"infoflow/dependencies.rs"),("DirectInfluence::lookup","crates/flowistry_ide/src/focus/direct_influence.rs")],
  [],["decoded message of the real plugin versus fault propagation in a simulated execution, as ranges of source text"],None)
# pure-function properties, stated and not claimed
p("C30","Slices are field-, call- and mutability-precise where types allow",
  "A slice does not contain statements that only affect other fields of the same aggregate, other places behind distinct lifetimes, or values passed only by shared reference.",
  ["programs"],"every safe function","the expected slices of about 90 programs are pinned.",
  [FL+"mir/aliases.rs",FL+"infoflow/mutation.rs"],[("alias analysis, mutation visitor",FL+"mir/aliases.rs")])
p("C31","Reported ranges map back to the right source text",
  "Every range reported for a place, a slice or a function body denotes, in characters, the source text of that construct, including with multi-byte characters, macros and attributes.",
  ["programs","inputs"],"every source text","a few ASCII programs are compared.",
  ["crates/flowistry_ide/src/focus/mod.rs","crates/flowistry_ide/src/spans.rs"],[("Spanner, CharRange","crates/flowistry_ide/src/focus/mod.rs")])
p("C32","Benchmark code generation produces programs that compile",
  "For every size parameter the benchmark macros expand to a compiling function with the requested number of variables, nesting depth or lifetimes.",
  ["inputs"],"every macro argument","macro expansion is only exercised with the benches' constants.",
  ["crates/bench_utils/src/lib.rs"],[("proc macros","crates/bench_utils/src/lib.rs")])
for x in P: print(json.dumps(x))
