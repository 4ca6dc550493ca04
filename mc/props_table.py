prop("C01", "Tracing is transparent",
  "Running a notebook under ipyflow has exactly the effects of running the same cells, in the same order, in plain IPython: the same printed output, displayed values, raised exceptions, evaluation order of user code and resulting variables. This holds for every construct of the language, for objects with user-defined special methods (which run neither more nor less often), for values that contain themselves, for exceptions raised anywhere, for re-runs of cells, and in every execution mode.",
  ["programs", "histories", "configurations"],
  "every expression form nested in every operand position of every form (depth 2), every statement form in every context with normal and raising operands, statement pairs, and a set of programs under every listed cut into cells, re-run and configuration",
  "The tests run a few hundred programs and look mostly at the dependency graph; a tracer that rewrites the syntax tree can break any combination of constructs, and no test compares against plain execution.",
  [CORE + "tracing/ipyflow_tracer.py", CORE + "tracing/flow_ast_rewriter.py", CORE + "tracing/utils.py", CORE + "shell/interactiveshell.py"],
  [("AST rewriting and event handlers", CORE + "tracing/ipyflow_tracer.py"), ("cell execution", CORE + "shell/interactiveshell.py")],
  ["stdout", "displayed value", "exception type/message/user frames", "user namespace", "log of user-visible calls"],
  "bounded-exhaustive enumeration of programs and cell schedules, real implementation compared with a plain-Python reference interpreter",
  "model_checking", "Exhaustive within the program grammar and schedule bounds; the reference is CPython itself. Module-level frames of the tracer's own lambdas are normalised out of tracebacks.")

prop("C03", "Staleness verdicts are exact",
  "After any sequence of cell executions and edits, a cell is reported waiting exactly when some variable it would read is undefined or is older than something it was (transitively) computed from, and ready exactly when it is not waiting and some variable it would read was assigned by a later execution than its own last run. Every way of reading a variable (operators, calls, lambdas, comprehensions, containers, attributes, classes, functions called) counts, and variables that are not read do not.",
  ["histories", "programs"],
  "all sequences of cell (variant) executions up to depth 4-5 on several notebooks, about 115 read constructs x consumers x re-run sequences, and about 2000 cells made of one, two or three of 75 statements that bind and read the same names in every way and scope, each compared with what it reads when run",
  "The tests fix some 150 short histories; the verdict depends on the whole history of executions, on the dynamic dependency graph and on the static liveness analysis together.",
  [CORE + "frontend.py", CORE + "data_model/symbol.py", CORE + "data_model/utils/update_protocol.py", CORE + "analysis/live_refs.py", CORE + "analysis/resolved_symbols.py"],
  [("frontend checker", CORE + "frontend.py"), ("update propagation", CORE + "data_model/utils/update_protocol.py"), ("liveness", CORE + "analysis/live_refs.py")],
  ["waiting_cells and ready_cells of the schedule response"],
  "explicit-state reference model of staleness, run in lockstep with the implementation over every bounded sequence of cell executions",
  "model_checking", "The model (mc/stale.py) is checked against the implementation on every explored transition; notebooks use distinct scalar and container values, any-order flow, liveness-based schedule. Plain aliasing (`b = a`) is outside the model.",
  state=[("required_timestamp", "execution after which a variable is out of date", CORE + "data_model/symbol.py")])

prop("C02", "Slices reproduce the values they explain",
  "At any point of any history of cell executions, the slice of a variable, and the slice of any past execution, is a program that re-executed alone in an empty namespace reproduces the value that variable had (or the values that execution assigned), at cell and at statement granularity, whenever data flows through names, attributes, elements, calls of notebook functions and the mutating methods of lists, dicts and sets. Earlier versions of a variable can be asked for, too: their slices reproduce the value after the respective change. Slices contain no code that has nothing to do with the value; on notebooks of plain assignments the slice of an execution is exactly the set of executions that flow into it.",
  ["histories", "programs"],
  "every read construct of a catalogue of about 115, about 100 mutation histories, and every sequence of cell executions up to depth 3-4 on 16 notebooks with mutation, aliasing, scoping and control flow; exact slices on 7 notebooks",
  "Slices depend on the dynamic graph built over the whole history; the tests compare slice line numbers on single histories and never re-execute a slice.",
  [CORE + "slicing/mixin.py", CORE + "slicing/context.py", CORE + "data_model/symbol.py", CORE + "data_model/timestamp.py", CORE + "data_model/statement.py", CORE + "tracing/symbol_resolver.py", CORE + "data_model/cell.py"],
  [("slice closure", CORE + "slicing/mixin.py"), ("usage edges", CORE + "data_model/symbol.py"), ("static edges", CORE + "data_model/cell.py")],
  ["text of slices of every variable and execution", "values after re-executing it"],
  "bounded-exhaustive enumeration of cell execution sequences on the real code; each slice is re-executed in a fresh interpreter namespace and compared, and compared with a reference dependency closure",
  "model_checking", "Oracle is re-execution by CPython. Slice (a[i:j]) stores, numpy views and masks, iterators and bound or unbound methods passed around are outside what ipyflow tracks and listed as known findings by history.",
  state=[("_dynamic_parents/_static_parents", "dependency edges between executions", CORE + "slicing/mixin.py")])

prop("C04", "Reactive execution converges to run-all",
  "On notebooks whose every variable has one defining cell placed before its readers, running (or editing and running) any cell and then, in position order, the cells reported newly ready until none is left gives exactly the variables and output of restarting and running all cells from the top. Each cell runs at most once per reaction, only cells that depend on something that changed run, and afterwards no cell is reported ready or waiting. This holds in any-order and in-order flow and for every execution schedule.",
  ["histories", "configurations"],
  "every sequence of edit-and-run actions up to depth 1-3 from a fully run notebook, on 10 notebooks x 6 configurations (flow direction x schedule)",
  "The tests react to single edits of small notebooks and count cells; convergence for every edit history needs the reference values at every step.",
  [CORE + "frontend.py", CORE + "flow.py", CORE + "data_model/cell.py", CORE + "data_model/symbol.py", CORE + "data_model/utils/update_protocol.py"],
  [("frontend checker", CORE + "frontend.py"), ("update propagation", CORE + "data_model/utils/update_protocol.py")],
  ["new_ready_cells, ready_cells, waiting_cells, forced_reactive_cells of the schedule response", "user namespace", "stdout of every reaction"],
  "bounded-exhaustive enumeration of edit-and-run histories on the real code, compared with a run-all reference after each reaction and a dependency model for the cells that may run",
  "model_checking", "Pure notebooks (one definition per variable, no in-place mutation across cells).")

prop("C06", "Memoization is invisible except for speed",
  "Running a cell marked %%memoize leaves the same variable values, raises the same exceptions and (by default) displays the same last expression as running it for real, whatever was executed, redefined or mutated in between: a cached result is used only if the cell's text and the values of all its inputs (by type, value and structure, also through functions and globals they read) are those of the cached run. Conversely, when text and inputs of a supported type are the same as in an earlier successful run, the cell is skipped. A skipped cell shows nothing but the display of its last expression, nothing at all with --quiet, and also its printed output with --verbose.",
  ["histories", "inputs"],
  "every sequence up to depth 4-5 of defining, redefining and mutating the inputs and running the memoized cell, for 28 input types and 28 scenarios",
  "The cache is keyed by the whole history of inputs; tests cover five short histories with scalar inputs.",
  [CORE + "data_model/cell.py", CORE + "data_model/symbol.py", CORE + "shell/interactiveshell.py", CORE + "memoization/__init__.py"],
  [("recording inputs and outputs", CORE + "data_model/cell.py"), ("comparables", CORE + "data_model/symbol.py"), ("reuse", CORE + "shell/interactiveshell.py")],
  ["user namespace", "stdout and display of each run", "Cell.skipped_due_to_memoization_ctr"],
  "bounded-exhaustive enumeration of cell execution sequences on the real code in lockstep with a plain-Python reference",
  "model_checking", "Results are compared by value and structure; cells that read and overwrite the same variable need not be skipped.")

prop("C05", "In-place changes reach every reader",
  "When a list, dict or object is changed in place - stores, augmented stores and deletions of elements and attributes at any depth, mutating methods of lists and dicts, whether done through the variable, through an alias of a part of it, or inside a called function - every cell whose result would now be different is reported ready (or waiting, if something else it reads has to be recomputed first), and every cell that uses that result is waiting. Re-running the cell clears the report. A store to one element or attribute of a variable does not report cells that read only another one.",
  ["histories", "programs"],
  "every sequence of in-place changes and re-runs up to depth 2-3, for about 50 readers of nested lists, dicts, objects and mixtures of them, directly and through aliases",
  "The tests look at single mutations followed by a single read; what has to be invalidated depends on the nesting, on aliases and on earlier changes.",
  [CORE + "data_model/utils/update_protocol.py", CORE + "data_model/symbol.py", CORE + "data_model/namespace.py", CORE + "tracing/ipyflow_tracer.py", CORE + "tracing/symbol_resolver.py", CORE + "tracing/external_calls/base_handlers.py"],
  [("update propagation", CORE + "data_model/utils/update_protocol.py"), ("element symbols", CORE + "data_model/namespace.py"), ("mutation handlers", CORE + "tracing/external_calls/base_handlers.py")],
  ["ready_cells and waiting_cells after each change", "value of the read expression in plain Python"],
  "bounded-exhaustive enumeration of mutation histories on the real code; the values a re-run would see are computed by plain Python after every step",
  "model_checking", "Changes made by library functions (setattr, random.shuffle), slice stores and by iterations of a loop after the first are outside; whether an alias or the reader has to be re-run first is left open.")

prop("C07", "The lab extension selects and orders the cells to run exactly",
  "Given the dependency edges the kernel reported, the cells that JupyterLab runs together with some cells (or selects as their forward or backward slice) are exactly the transitive closure over those edges. With pull_reactive_updates also every ancestor that is unexecuted, dirty, ready or waiting, every cell between a pulled ancestor and the closure, and the overwritten parents the kernel reported; with push_reactive_updates_to_cousins the closure of all of these under dependents. Each cell is run once, in notebook order (in-order flow) or in an order in which every cell comes after the cells it depends on (any-order flow); cells deleted from the notebook are left out.",
  ["programs", "configurations"],
  "every dependency graph over 3-4 (thorough: 5) cells, every start set, set of out-of-date cells, notebook order and setting",
  "The extension has no tests of its closure; which cell is missed depends on the shape of the graph, the order in which the edges are listed and which cells are out of date.",
  ["frontend/labextension/src/store.ts"],
  [("closure", "frontend/labextension/src/store.ts"), ("pulled updates", "frontend/labextension/src/store.ts"), ("ordering", "frontend/labextension/src/store.ts")],
  ["cells returned by computeRawTransitiveClosure", "order returned by cellIdsToCells"],
  "exhaustive enumeration of dependency graphs and session states on the real store code, compared with an independent least-fixed-point model",
  "model_checking", "The TypeScript of the working tree is transpiled in memory and run in node. For cyclic graphs only the set (and notebook order), not a topological order, is checked.",
  state=[("cellParents/cellChildren", "edges between cells as last reported by the kernel", "frontend/labextension/src/store.ts")])

prop("C08", "A JupyterLab session converges to run-all",
  "With the lab extension and the kernel connected, on notebooks whose every variable has one defining cell placed before its readers: editing any cell and running it - right away or after the extension has noticed the edit - leaves the variables and output that running all cells from the top gives (in lazy execution mode after executing the stale cells on command, and except for cells that were edited and deliberately not run). Each cell runs at most once per reaction, only cells that depend on an edited or run cell run, edits alone run nothing, and nothing is left marked ready, waiting or dirty. A cell that raises ends the reaction (with DAG-based or liveness-based schedules), and the next edit of it recovers; alt-mode execution runs just the cell, and the slice commands run exactly its forward or backward slice (DAG-based schedule). This holds for every flow direction, execution schedule and reactivity mode, after moving, adding and deleting cells, and after a kernel restart, when the dependencies saved in the notebook's metadata are enough to run with a cell everything it needs and everything that needs it, with reactive DAG-based schedules.",
  ["histories", "configurations"],
  "every sequence of edit / edit-and-run actions up to depth 1-2 on 10 notebooks in 10 configurations; each of the commands (run and advance, alt-mode, forward and backward slice) and a raising edit; each move, deletion and addition of a cell followed by every action; a kernel restart after each edit followed by every run",
  "The extension and the kernel each keep part of the state and talk asynchronously; the tests exercise only the kernel side of single messages.",
  ["frontend/labextension/src/index.ts", "frontend/labextension/src/store.ts", CORE + "comm_manager.py", CORE + "frontend.py", CORE + "flow.py", CORE + "data_model/cell.py"],
  [("reaction to executions and edits", "frontend/labextension/src/index.ts"), ("closure", "frontend/labextension/src/store.ts"), ("schedule responses", CORE + "comm_manager.py"), ("checker", CORE + "frontend.py")],
  ["cells executed, their output", "user namespace", "ready, waiting and dirty cells of the extension", "saved cell_parents / cell_children metadata"],
  "explicit-state exploration of user actions on the composed system: the real TypeScript extension in a simulated JupyterLab, the real comm manager, flow and shell, with a run-all reference after each reaction",
  "model_checking", "JupyterLab itself (widgets, command registry, shell channel) is simulated by mc/ts/frontend.js; messages are delivered in order, as the shell channel does.",
  state=[("cellParents, readyCells, waitingCells, dirtyCells", "session state of the extension", "frontend/labextension/src/store.ts")])
