# (id, title, statement, over, quantifier text, why_tests_cant, files, mechanism[(name,where)], observe_at, level_note)
P = []
def p(*a): P.append(a)

p("C01", "From-scratch consistency of incremental computation",
  "After any sequence of input edits and demands, the value that a demand of a thunk returns equals the value that a from-scratch evaluation of the same program on the current inputs would return. This holds for any program of nominal and structural cells and thunks whose names are used unambiguously, whatever was cached, dirtied or cleaned before, however many cells, thunks and edits there are. For cells and thunks that are named by the user, any type of values that has an equality will do: values that are different, though they print or hash alike, are different. (Structural and unnamed articulations are identified by the hash of their content.)",
  ["programs", "histories", "inputs"], "every program of the library's core language, every sequence of edits and demands, every input value",
  "The engine tests run a handful of fixed programs through one or two edits each; a stale value needs a particular graph shape and a particular order of edits, partial demands and re-demands.",
  ["src/engine.rs", "src/macros.rs"],
  [("dirtying of observing edges on set and re-allocation", "src/engine.rs dirty_pred_observers, dirty_alloc"), ("cleaning and re-evaluation of dirty dependencies on demand", "src/engine.rs clean_comp, DCGDep impls, check_force_dep")],
  ["value of engine::force / get! / force_map / force_abs at every demand"],
  "Every program in the enumerated families, every edit/demand history of the stated length: the real engine's answer at every demand equals an independent reference interpreter's. Assumes bounded program size, 2-3 values per cell and histories of the stated length.")

p("C02", "Demand-driven evaluation: only demanded bodies run, at most once",
  "Allocating, naming, setting or re-allocating never runs a thunk body; bodies run only inside a demand. A demand runs only bodies that a from-scratch evaluation of the same demand on the current inputs would run, and each of them at most once.",
  ["programs", "histories", "inputs"], "every program, every sequence of edits and demands",
  "The tests check results, rarely which bodies ran; spurious or eager evaluation of a computation the current control flow no longer reaches is invisible in values.",
  ["src/engine.rs"],
  [("cleaning visits successors in observation order and re-runs a computation as soon as one of them changed", "src/engine.rs clean_comp"), ("lazy thunks", "src/engine.rs thunk")],
  ["the sequence of thunk bodies executed, recorded by the bodies themselves"],
  "Every body execution in every explored history is compared with the set of bodies the reference evaluation of that demand executes.")

p("C03", "Reuse: unchanged computations are never re-run",
  "A thunk is re-evaluated only if a value it observed in its previous evaluation, its argument, or the content of something it allocated has changed since. In particular a demand repeated without an intervening edit runs nothing, and an edit that is undone before the next demand runs nothing.",
  ["programs", "histories", "inputs"], "every program, every sequence of edits and demands",
  "The tests compare values; losing reuse keeps every value right and only destroys the incrementality the library exists for.",
  ["src/engine.rs"],
  [("change propagation stops at equal results", "src/engine.rs loc_produce, check_force_dep"), ("matching of re-allocated thunks by program point, argument and body", "src/engine.rs thunk")],
  ["observations (location, value) recorded by each body execution, compared with its next execution"],
  "Every second execution of the same thunk in every explored history must be justified by a changed observation, argument or overwritten allocation.")

p("C04", "Nominal allocation: a name identifies one location, overwritten in place",
  "Allocating a cell or thunk under a name that is already in use yields an articulation equal to the earlier one; the location then holds the new content, whether the old or new content is a cell or a thunk. Everything that depends on that location sees the new content at its next demand, and re-allocating equal content changes nothing.",
  ["programs", "histories", "inputs"], "every sequence of allocations of cells and thunks under the same names, from the editor or from within computations, interleaved with demands",
  "The existing tests re-allocate a cell with a cell a few times; the four kind transitions, their observers and their history are not covered.",
  ["src/engine.rs"],
  [("dirtying on re-allocation", "src/engine.rs cell, thunk, dirty_alloc"), ("check of the old content against the new", "src/engine.rs thunk (function and argument comparison), cell")],
  ["equality of articulations; values, bodies and re-evaluations after re-allocation"],
  "All histories over the enumerated name-reuse programs; values, demanded bodies and re-evaluations all checked.")

p("C05", "Projected observation (force_map) is sound and as precise as the projection",
  "An observation through force_map returns the projection of the current content. A computation that observed a cell only through projections is re-run if one of the projected values changed and not if none did; mixing projections with each other and with full observations of the same cell, in any order, keeps both guarantees.",
  ["programs", "histories", "inputs"], "every order and mix of projected and full observations of a location within and across computations, every edit history",
  "One test observes one projection of one cell once; the interplay of several observations of the same location by one computation is not exercised.",
  ["src/engine.rs"],
  [("observation mapping dependency", "src/engine.rs ForceMapDep, force_map")],
  ["value of force_map, body executions"],
  "All sequences of up to three observations over the stated projections, all histories of the stated length.")

p("C06", "Abstract observation (force_abs) is sound and respects its difference function",
  "An observation through force_abs returns the abstraction of the current content. A computation that observed a cell only through abstractions is re-run when the family's difference of old and new content makes one of them dirty, and not when it makes none dirty; mixing abstractions and full observations keeps both guarantees. The family is asked for differences from the value that was observed to the value now there.",
  ["programs", "histories", "inputs"], "every order and mix of abstract and full observations of a location, every edit history",
  "No test observes a location through force_abs after an edit.",
  ["src/engine.rs"],
  [("abstract mapping dependency", "src/engine.rs ForceAbsDep / AbsMapFam, force_abs")],
  ["value of force_abs, body executions"],
  "All sequences of up to three abstract observations, all histories of the stated length.")

p("C07", "Namespaces separate names; thunks run in the namespace that created them",
  "The same name used under two different namespace paths denotes two different locations, and under equal paths one location. A thunk body runs in the namespace where the thunk was created, wherever it is demanded, and leaving a namespace restores the enclosing one.",
  ["programs", "histories", "configurations"], "every pair of namespace paths, creation and demand sites, and edit histories",
  "The tests use one namespace once; aliasing between paths shows only when two calls of the same code collide after an edit.",
  ["src/engine.rs"],
  [("path of the current namespace in every location", "src/engine.rs ns, Path, get_loc"), ("path restored when a computation runs", "src/engine.rs loc_produce")],
  ["values and reuse of computations that allocate the same names at different paths"],
  "All programs of the stated family (pairs of paths x bodies), all histories of the stated length.")

p("C08", "Structural identity and the purity shortcut do not change meaning",
  "A structurally identified thunk is shared by every allocation with equal function and arguments at equal path, and structurally identified cells by equal content. Within a structural region names are ignored, by everything that runs there and by thunks created there, whenever and from wherever they are run or re-run; outside it they count. Skipping dependency tracking for thunks found pure never makes a demand return a stale value: results are the same with that optimisation on and off.",
  ["programs", "histories", "configurations"], "every program mixing structural and nominal allocation, every edit history, both settings of the optimisation",
  "Tests evaluate structural thunks once or twice without edits to what they observe.",
  ["src/engine.rs"],
  [("structural locations", "src/engine.rs structural, NameChoice::Structural, ArtIdChoice"), ("purity flag", "src/engine.rs IsPure, use_purity_optimization")],
  ["values, bodies and reuse with the optimisation on and off"],
  "All programs of the structural and region families, with the optimisation on and off, all histories of the stated length; all ordered pairs of the stated contents as structural cells and arguments.")

p("C09", "The demanded-computation graph is well-formed in every reachable state",
  "After every operation, the graph the library reports about itself is consistent. Dependence edges and their back-edges match one to one, and dirtiness is closed under demand: if an edge is dirty, then so is every edge that demands its source. Each computation's edges are exactly the demands and allocations of its last evaluation, every location shows its current content, and every computation without dirty edges caches the value a from-scratch evaluation gives, and no engine state (call stack, namespace) is left behind.",
  ["histories", "programs"], "every state of the graph reachable by edits and demands of every program, also in the middle of a demand",
  "Tests look at answers; a missing or surplus edge or dirty bit is harmless in most histories and gives a stale answer or lost reuse in some later one.",
  ["src/engine.rs", "src/reflect.rs"],
  [("predecessor and successor bookkeeping", "src/engine.rs GraphNode, revoke_succs, loc_produce"), ("dirtying transitively, stopping at dirty edges", "src/engine.rs dirty_pred_observers, dirty_pred_alloc"), ("reflection of the graph", "src/engine.rs reflect_dcg, src/reflect.rs")],
  ["engine::reflect_dcg after every operation and inside computations"],
  "Every state reached by the explored histories is checked against the stated invariants, with contents, evaluations and observations recorded independently.")

p("C10", "Diagnostics are neutral: tracing, reflection and checks change no behaviour",
  "Recording effect traces, labelling effects with debug messages, reflecting the graph and running the engine's well-formedness checks do not change any result, which computations run, or what is reused; the well-formedness checks never fail on a graph the library built.",
  ["configurations", "programs", "histories"], "every program and history, with diagnostics on and off",
  "Tests run either with or without diagnostics, never the same history in both configurations.",
  ["src/engine.rs", "src/reflect.rs"],
  [("effect tracing", "src/engine.rs dcg_effect macros, dcg_reflect_begin/end"), ("debug labels", "src/engine.rs reflect_dcg, my_dcg_debug"), ("well-formedness checks", "src/engine.rs wf, use_engine flags")],
  ["values, bodies and reuse with each diagnostic switched on"],
  "The same enumerated programs and histories as the core properties, repeated with diagnostics on; values, demand and reuse all checked.")

p("C11", "Effect traces account for exactly what happened",
  "The trace of an operation shows each allocation with its kind and whether it was fresh, same or changed, each demand of a location, each evaluation as a cache miss or re-evaluation, each edge that became dirty, and for demands the edges cleaned or removed; it shows nothing that did not happen. trace_count summarises a trace exactly, with or without debug labels.",
  ["programs", "histories"], "every operation of every history of every program",
  "The tests print traces or count one or two effects of one program; nothing compares a trace with what happened.",
  ["src/engine.rs", "src/reflect.rs"],
  [("effect recording", "src/engine.rs dcg_effect!, dcg_effect_begin!, dcg_effect_end!"), ("summary", "src/reflect.rs trace_count")],
  ["engine::reflect_dcg / dcg_reflect_begin / dcg_reflect_end, reflect::trace::trace_count"],
  "Every operation of the explored histories: its trace is compared with recorded allocations, demands, evaluations and the difference of the graph before and after.")

p("C12", "Cycles end in the given value, or in a panic if none was expected",
  "A demand through force_cycle that closes a cycle of demands returns the value given for that case, whether the cycle is direct or goes through other thunks, and the demand as a whole terminates with the value that evaluation with those values gives. A demand through plain force that closes a cycle panics, and never diverges; where no cycle forms, force_cycle behaves as force. Editing inputs below a cycle that is always entered through the same thunk keeps this true. Where an edit makes cycles come and go, a demand that reaches no cycle gives the value from scratch, whatever was demanded before, one that only reaches cycles of plain demands panics, and one that only reaches cycles of demands that expect them does not.",
  ["programs", "histories", "inputs"], "every graph of thunks that force each other, every order of demands, every edit history below a cycle",
  "One test builds one cyclic graph and demands it once, without edits.",
  ["src/engine.rs"],
  [("detection of thunks in progress", "src/engine.rs Adapton for DCG: force"), ("user interface", "src/engine.rs force_cycle, get! with a cycle value"), ("cleaning dirty thunks that form a cycle", "src/engine.rs clean_comp, ForceDep")],
  ["value or panic of force / force_cycle, body executions"],
  "All graphs of 2-3 thunks with up to 2 out-edges (expecting cycles or not, thunks allocated by the editor or where demanded), all demand sequences; self-loops and edited cycles of 2-3 thunks with all histories of the stated length; all programs of 2 thunks (a share of those of 3) with edges gated by an edited cell, with all histories of edits and demands.")

p("C13", "Misuse is refused with a panic and changes nothing",
  "Setting anything but a cell, setting any cell from within a computation, using one name for content of another type or for a thunk of another function or argument type, observing or setting a tracked location under the naive engine or under an engine that does not have it, and unbalanced tracing all panic. An editor operation that was refused changes nothing: every later operation behaves as if it had not been tried.",
  ["histories", "configurations"], "every sequence of legitimate and illegitimate operations, every nesting of computations around the illegitimate one",
  "Unit tests check no refused operation at all; a missing refusal silently corrupts the graph and shows much later, as a stale value or undefined behaviour.",
  ["src/engine.rs"],
  [("set only at the outer layer, only on cells", "src/engine.rs set, set_"), ("types of locations", "src/engine.rs assert_graphnode_res_type, res_node_of_loc"), ("function and argument type of re-allocated thunks", "src/engine.rs thunk"), ("locations under the naive engine", "src/engine.rs force, force_map, force_abs, force_cycle, set")],
  ["panic or not of every operation, values and reflected graph afterwards"],
  "All sequences of the stated length over the stated editor operations; all nestings up to depth 3 for operations inside computations.")

p("C14", "Engines: the naive engine agrees, and engines do not affect each other",
  "Under the naive engine every program denotes the same values as under the graph engine; it evaluates a thunk at every demand and keeps no graph. Exchanging engines with use_engine and init_* returns the engine that was in use with all it holds, init_dcg gives an empty graph and init_naive an engine without one, and the predicates tell which is in use. Engines that take turns, also in different threads, each behave as if they were alone; a thread starts with the naive engine.",
  ["programs", "inputs", "configurations", "schedules"], "every program and input, every order of taking turns, every sequence of engine exchanges",
  "Tests use one engine at a time; leaking state between engines needs interleaved histories.",
  ["src/engine.rs"],
  [("global engine per thread", "src/engine.rs GLOBALS"), ("exchange", "src/engine.rs manage::use_engine, init_dcg, init_naive"), ("naive articulations", "src/engine.rs NaiveThunk, EnumArt::Force, EnumArt::Rc")],
  ["values, body executions, engine returned by each exchange, reflected graph"],
  "All programs of the listed families in all input states under the naive engine; all turn-taking histories, exchange sequences and thread interleavings (of whole operations) of the stated length.")

p("C15", "Names are equal exactly when built alike, and so are locations",
  "Names built by the same constructors from the same parts are equal, hash and print equally, and names built differently are different, also by hash (structural identity has nothing else); name_of_str and name_of_string agree. The results of forking a name in two, three or four are pairwise different and differ from the name, and forks of different names are different. Two locations are one exactly when name and namespace path are equal: content written under one is never seen under another.",
  ["inputs"], "every pair of names built by pairing and forking, every pair of namespace paths",
  "Tests build a few names; a collision merges two locations and corrupts unrelated data.",
  ["src/engine.rs"],
  [("symbols and their hashes", "src/engine.rs Name, NameSym, name_pair, name_fork"), ("locations", "src/engine.rs Loc, loc_of_id, Path")],
  ["equality, hash and text of names; content of cells and thunks under names and paths"],
  "All pairs of names up to the stated construction depth, all pairs of locations up to the stated path length.")

p("C16", "Unnamed articulations denote their value and keep dependencies tracked",
  "An articulation made by put holds its value; an eager thunk is evaluated once, immediately; a naive thunk and a mapped thunk are evaluated at every demand, on behalf of the demanding computation, so what they observe is tracked there. Values are from-scratch consistent after edits, wherever such articulations are built, returned, stored or demanded; two articulations are equal exactly if they have equal content, or the same function and equal arguments, or the same location; equal ones hash alike.",
  ["programs", "histories", "inputs"], "every program that mixes unnamed with named articulations, every edit history",
  "No test demands an unnamed thunk after an edit or compares two of them.",
  ["src/engine.rs"],
  [("unnamed thunks", "src/engine.rs thunk, NameChoice::Naive, NameChoice::Eager, NaiveThunk"), ("mapped thunks", "src/engine.rs thunk_map"), ("equality of articulations", "src/engine.rs EnumArt, Force::eq")],
  ["values, bodies and number of evaluations at every demand"],
  "All programs of the family, all histories of the stated length; values, demand, reuse and evaluation counts checked. All pairs of 27 ways to make an articulation compared, and used in each other's place.")

p("C17", "Reflected values mirror the data, reflected locations the articulations",
  "For data built of structs, enums, tuples, vectors, integers, strings, names and articulations, with derived Debug, the reflected value has the same constructors, fields, numbers, strings and names, in the same order. An articulation in it is reflected as the location under which the reflected graph has its node, be its name nominal, in namespaces, or structural. The reflected node of a cell holds the reflected content, that of a thunk the reflected value, or none before its first demand.",
  ["inputs"], "every value of such data, every nesting of articulations in it, every kind of name and namespace path",
  "No test looks at a reflected value; the graphs of the tests hold numbers and lists of them.",
  ["src/parse_val.rs", "src/reflect.rs", "src/engine.rs"],
  [("reading of Debug text", "src/parse_val.rs lex, parse_val_rec, parse_fields, parse_vals"), ("recognition of names and articulations", "src/parse_val.rs name_option_of_val, parse_art_val"), ("reflection of nodes", "src/engine.rs Reflect for Node, Loc, Path")],
  ["reflect::reflect_val, dcg_reflect_now"],
  "All values up to the stated size over the stated atoms, with an independent construction of the expected reflection. Outside: characters, floats, maps (not supported, as documented), and constructors of the user that print exactly like a name or a location.")

p("C18", "Collection functions compute what they denote, under either engine",
  "For every list and tree, with names and articulations anywhere in them, each collection function (building, demanding up to a limit, push, pop, append, reverse, map, filter, fold, merge, conversions between lists and trees, monoids, pruning, merge sorts) gives the elements that the same function on plain sequences gives, in the same order. Maps, filters, reversal, appending to the right and the conversions keep the order of the names between the elements; no output uses a name twice that the input uses once; a merge puts a name only in front of an element it, or the name it was forked from, was in front of, and keeps one in front of each element that had one. The results under the naive and the graph engine are equal.",
  ["inputs", "configurations"], "every sequence of elements and names, every placement of articulations, every assignment of levels, both engines",
  "The tests run each function on one or two random or hand-made lists; empty segments, repeated values, leading names and lists cut by articulations are left out.",
  ["src/catalog/collections.rs"],
  [("lists", "src/catalog/collections.rs ListIntro, ListElim, list_*"), ("trees", "src/catalog/collections.rs TreeIntro, TreeElim, tree_fold_*, *_of_tree"), ("sorting", "src/catalog/collections.rs list_merge, mergesort_*")],
  ["vec_of_list, list_of_tree, tree_fold_seq, values of the functions"],
  "All inputs up to the stated length over the stated alphabets; all trees of up to the stated number of nodes; each function compared with its definition on sequences. Where filters leave several names between two kept elements, any one of them is accepted.")

p("C19", "Collection functions are from-scratch consistent under edits of their input",
  "After any history of changes of an input list, made by setting its cells or by allocating it anew under the same names, and of full or partial demands of the output, each composition of collection functions gives what it gives from scratch on the current input, names included. If nothing changed since the last demand, no function given by the user is run. After a change to some segments of a list, maps and filters run their function only on elements of changed segments and of the segments directly before them.",
  ["histories", "inputs", "programs"], "every composition of collection functions, every history of edits and demands, every input",
  "Tests edit a list once or twice at one place and compare; name clashes inside the library need particular sequences of shapes.",
  ["src/catalog/collections.rs", "src/engine.rs"],
  [("names of memoised sub-results", "src/catalog/collections.rs tree_fold_up, tree_of_list_rec, list_of_tree, list_merge"), ("change propagation", "src/engine.rs")],
  ["values of the compositions, runs of the user's functions"],
  "25 compositions, three ways to change the input, all histories of the stated length over all states of the stated number of named segments.")

p("C20", "Trees made from lists are canonical: order, levels and balance by name",
  "The tree made from a list has the entries of the list in order (or reversed, by the direction), its inner nodes bear the levels of the elements and names they stand for, and levels never increase from a named node to those below it. The shape of the tree depends only on the sequence of entries and the direction, not on the engine, nor on how the list is cut by articulations, so making it anew from its own listing gives an equal tree.",
  ["inputs", "configurations"], "every sequence of elements and names, every assignment of levels to them, both directions, both engines",
  "The tests print trees or check elements only; shape is what makes incremental costs logarithmic and is not checked.",
  ["src/catalog/collections.rs"],
  [("construction by levels", "src/catalog/collections.rs tree_of_list, tree_of_list_rec"), ("levels", "src/catalog/collections.rs Level")],
  ["structure of the tree after removing articulations"],
  "All sequences up to the stated length for four assignments of levels to values and names.")

p("C21", "Bit strings and tries: finite sets placed by hash, independent of history",
  "Operations on bit strings agree with those on sequences of bits. A trie built by its constructors and by splitting holds exactly the elements put in it: membership, lookup, emptiness and folds agree with the finite set, leaves are placed by their hashes, and neither equality nor hash of a trie depends on the order of insertion, articulations or engine. After edits of the inputs of thunks that build and query tries, demands give what a from-scratch evaluation gives.",
  ["inputs", "histories", "configurations"], "every finite set of elements and order of insertion, every placement of names and articulations, every edit history",
  "The tests insert a few hundred integers in order and look them up; elements whose hashes share long prefixes, and edits, are left out.",
  ["src/catalog/trie.rs", "src/catalog/bitstring.rs"],
  [("splitting of leaves by hash bits", "src/catalog/trie.rs split_atomic, extend"), ("bit strings", "src/catalog/bitstring.rs BS")],
  ["members of tries by find, mem, fold; bit strings"],
  "All subsets and insertion orders of elements chosen so that their hashes part after 1 to 4 bits, all bit strings up to the stated length. Emptiness is claimed for tries made by the library's own operations.")

p("C22", "Maps and sets over lists behave as finite maps and finite sets",
  "For every sequence of updates, a lookup in a map kept as a list gives the last value bound to the key, or none, and its fold visits the bindings from the last to the first. Sets kept as lists have exactly the members added, addition and intersection are those of finite sets, and folds visit each member. Names and articulations in between, and the engine in use, make no difference.",
  ["inputs", "configurations"], "every sequence of updates, every placement of names and articulations, both engines",
  "No test covers maps or sets over lists.",
  ["src/catalog/collections.rs"],
  [("maps", "src/catalog/collections.rs MapIntro, MapElim"), ("sets", "src/catalog/collections.rs SetIntro, SetElim")],
  ["results of map_find, map_fold, set_mem, set_add, set_inter, set_fold"],
  "All update sequences up to the stated length over three keys and two values; all pairs of subsets.")

p("C23", "The macros mean the engine operations they stand for",
  "Each form of the macros for names, cells, thunks, memoised and eager calls, conditional and named variants, and demands, has the same result, runs the same functions and leaves the same dependence graph as the sequence of engine operations its documentation gives, at the first use and at every later use with changed inputs. Different functions or bodies written in one program are different program points. Names made by counting are different from each other.",
  ["programs", "histories"], "every macro form, every sequence of uses with changing arguments, functions and inputs",
  "Doc examples use each macro once; a wrong program point, name choice or argument order shows only at re-use.",
  ["src/macros.rs"],
  [("macros", "src/macros.rs get!, cell!, let_cell!, thunk!, let_thunk!, memo!, let_memo!, eager!, fork!")],
  ["values, function runs and reflected graph of both expressions"],
  "All sequences of the stated length of steps over 35 macro forms with their changing arguments, under both engines; compared step by step with the engine calls.")

p("C24", "A panic in a computation leaves the engine usable",
  "If the body of a thunk panics during a demand by the editor, at any point, and the editor catches the panic, then the call stack, the current namespace, structural mode and the nesting of traces are what they were before the demand, and nothing of the unfinished evaluations is reused. Every later edit and demand then behaves as if those evaluations had never begun, except for what they had allocated: it is accepted, gives the same values as from scratch, runs no more bodies than needed, and the graph stays well-formed. The same holds when the panic is one of the engine's own (an unexpected cycle, a refused call in a computation), as far as values, executed bodies and later edits go. The projections of force_map and the mappings of force_abs may panic for some contents: an edit takes effect without running into that, and a demand panics exactly if a from-scratch run would.",
  ["crash points", "histories", "programs"], "every point of every evaluation at which a body may panic, every history of edits, demands and panics, every program",
  "No test goes on after a panic; what is left behind depends on which evaluations were under way, which of them were re-evaluations, and in which namespace or region.",
  ["src/engine.rs"],
  [("unwinding", "src/engine.rs OnPanic, force, ns, structural, trace_depth"), ("interrupted evaluations", "src/engine.rs loc_produce, clean_comp")],
  ["values, body executions, refusals, reflected graph after the panic"],
  "Fault injection: each body execution of each history is in turn the one that panics; repeated panics up to the stated number. Projections that panic for some contents: all small programs and histories with them, against a from-scratch reference. Panics caught inside of another computation are outside of the bounds.")

p("C25", "Collection work is bounded by the demand and by the change",
  "A lazy map or filter of a list runs its function only for elements up to the end of the segment of the last entry demanded, and never again for what was demanded before. The merge sorts compare no more often than merging does; where a name is in front of every element, the first element of a sorted list takes at most n-1 comparisons and each further one at most as many as the merge tree is high (mergesort_list_of_tree2: if the tree was pruned). After a change of part of a tree, its sums, maxima, filters, sorts and other folds run their operations only for the parts, between named nodes, in which something changed and on the way from them to the root. Where nothing changed, nothing runs.",
  ["inputs", "histories"], "every list and tree, every limit of the demand, every sequence of changes",
  "Results do not show the work: the tests pass when everything is computed eagerly, or again after each change.",
  ["src/catalog/collections.rs"],
  [("lazy lists", "src/catalog/collections.rs list_lazy_map, list_lazy_filter, ListElim"), ("merging on demand", "src/catalog/collections.rs list_merge, mergesort_list_of_tree*"), ("memoised folds", "src/catalog/collections.rs tree_fold_up, tree_fold_up_nm_dn, monoid_of_tree")],
  ["number of runs of the functions given by the user, number of comparisons of elements"],
  "All lists and trees up to the stated size, every limit, all sequences of the stated number of changes of their contents; work counted against the bound computed from the shape of the input. mergesort2 is not bounded without names in front of every element.")

p("C26", "Settings select the engine's mode; drawings show the graph",
  "An engine made by init_dcg while ADAPTON_STRUCTURAL is set in the environment treats everything that it runs as if in a structural region; one made under ADAPTON_NO_PURITY also tracks the dependencies on pure thunks and none else differently; ADAPTON_CHECK_DCG has it check its graph, without ever failing. Under ADAPTON_WRITE_DCG it writes, whenever its graph or what is running has changed at the end of a cell allocation, a new thunk, a set or a demand, the next of a sequence of dot files, each of which shows exactly the nodes of the graph, the edges of each computation in order with their kind or dirtiness, and the running computations with their edges; where nothing changed, nothing is written. Settings combine, are those of the environment when the engine was made, belong to that engine, and change no value.",
  ["programs", "histories", "configurations"], "every combination of settings, every program, every sequence of edits and demands",
  "No test sets them.",
  ["src/engine.rs"],
  [("settings of a new engine", "src/engine.rs DCG::new"), ("drawings", "src/engine.rs wf::check_dcg, wf::write_next_dcg, wf::write_dcg_file"), ("structural mode", "src/engine.rs cell, thunk")],
  ["flags of engines; values and reflected graphs under each setting; the files written"],
  "All pairs of combinations of settings of two engines; all programs of the families in all input states under ADAPTON_STRUCTURAL; all histories of the stated length of every n-th program (thorough: all) with drawings on, each drawing after each operation, and at the end of each body, compared with the reflected graph. Drawings are not compared after force_map and force_abs of a cell, which write none.")
