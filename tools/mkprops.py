#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays schema-valid)."""
import json, os
S='mbqc_scheduling/src/'
def P(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
R=[]
R.append(P('C01','Reported space is the exact peak number of qubits in memory',
 "Measuring a node brings the node itself, if it is still asleep, and each of its neighbours that is still asleep into memory, counts every one of them exactly once, and never re-initialises a measured node; a step's measured nodes leave memory only after the whole step has been carried out. At step boundaries the current memory is the number of initialised unmeasured nodes. The maximum memory starts at zero and is always the largest number of nodes that were in memory at once within any step so far.",
 ['inputs','histories'],'every graph (also with asymmetric lists or self loops), every sequence of measurement steps',
 "The unit test replays one four node graph; the roundtrip proptest compares searches that all use the same Graph with each other, so a consistently wrong accounting is invisible to it.",
 [S+'scheduler/space.rs',S+'scheduler.rs'],
 [('Graph::measure / initialize state transitions',S+'scheduler/space.rs'),('Graph::update_memory',S+'scheduler/space.rs'),('Graph::new',S+'scheduler/space.rs')],
 [('nodes[i].0','state of qubit i: Sleeping, InMemory, Measured',S+'scheduler/space.rs'),('current_memory','qubits in memory',S+'scheduler/space.rs'),('max_memory','peak so far',S+'scheduler/space.rs')],
 ['Graph::current_memory()','Graph::max_memory()','interface::Path::space']))
R.append(P('C02','A node becomes measurable exactly when its last dependency is measured',
 "Focusing on a measurement step removes exactly the measured nodes from the measurable set and adds exactly those nodes whose last outstanding dependency is measured in that step; every other node stays blocked. Consequently each node of the ordering is measured at most once and never before or together with one of its dependencies. The remaining-node count is the number of measurable plus blocked nodes, and the blocked query is true exactly if some node is still blocked.",
 ['inputs','histories'],'every well-formed partial order, every sequence of admissible measurement steps (manual or iterated)',
 "Tests sample a handful of orderings and the proptest checks all consumers of the same generator against each other; a generator that releases nodes too early for some orderings is consistent with itself.",
 [S+'scheduler/time.rs'],
 [('PathGenerator::update_unchecked: decrement per measured dependency, release at zero',S+'scheduler/time.rs'),('PathGenerator::partition / next_and_focus: removal of the measured nodes',S+'scheduler/time.rs')],
 [('deps_counter','outstanding dependencies of each blocked node',S+'scheduler/time.rs'),('measurable','currently measurable nodes',S+'scheduler/time.rs'),('dependents','node -> nodes that depend on it',S+'scheduler/time.rs')],
 ['PathGenerator::measurable()','PathGenerator::has_unmeasureable()','PathGenerator::num_remaining_nodes()','Path::steps']))
R.append(P('C03','Inadmissible measurement requests are rejected without any effect',
 "Asking the path generator to measure anything that is not currently measurable, or the same node twice in a step, returns the not-measurable error carrying exactly the offending entries; it never panics, whatever the size of the request, and leaves the generator as it was. Asking the graph to measure an already measured node returns the already-measured error naming that node. An admissible request never errors.",
 ['inputs','histories'],'every measure set (any length, duplicates, unknown nodes) in every reachable state',
 "wrong_instructions only tries one-element sets in three states; longer requests, duplicates and state preservation after an error are never looked at.",
 [S+'scheduler/time.rs',S+'scheduler/space.rs',S+'scheduler.rs'],
 [('PathGenerator::partition validates before any write',S+'scheduler/time.rs'),('Graph::measure Measured branch',S+'scheduler/space.rs')],
 [],['Focus::focus','Focus::focus_inplace','NotMeasurable','AlreadyMeasured']))
R.append(P('C04','Iteration offers every admissible next step once, all-measurable first',
 "From any state, iterating over the next steps yields every non-empty subset of the measurable set exactly once, starting with the whole measurable set, and ends only after the last one; what is not measured in a step stays measurable. A state is a leaf exactly if nothing is measurable. So the sweep reaches every admissible pattern exactly once, the time-optimal one first.",
 ['inputs','histories'],'every ordering and every state of the generator',
 "Only five path lists and path counts up to five independent nodes are asserted; the proptest compares consumers of the same iterator.",
 [S+'scheduler/combinatoric.rs',S+'scheduler/time.rs',S+'scheduler.rs'],
 [('Partition::next splits the set by the powerset iterator',S+'scheduler/combinatoric.rs'),('next_and_focus stops at the empty measuring set',S+'scheduler/time.rs'),('at_leaf',S+'scheduler/time.rs')],
 [],['FocusIterator::next_and_focus','FocusIterator::at_leaf','Partition']))
R.append(P('C05','Sweeping goes one level down or back to exactly the parent state',
 "A forward step keeps the state that was left and moves to the child; a backward step or a skip restores exactly the most recently left state; no state is dropped or visited twice. The leaf item is reported on a backward step if and only if the state being left is a leaf, and is taken from that state. The sweep ends, and a skip fails without effect, only when there is no parent state.",
 ['histories','inputs'],'every interleaving of next and skip calls on every tree',
 "Tests only run full forward sweeps on a few trees; skipping is only exercised inside the search loop.",
 [S+'scheduler/tree.rs'],
 [('Sweep::next push/pop pairing',S+'scheduler/tree.rs'),('Sweep::skip_current',S+'scheduler/tree.rs')],
 [('current','focused state',S+'scheduler/tree.rs'),('stack','left parent states',S+'scheduler/tree.rs')],
 ['Sweep::next','Sweep::skip_current']))
R.append(P('C06','The time and the space half of a scheduler never diverge',
 "Every operation that advances a scheduler advances the measurement order and the graph by the same measurement step, in both halves or (on a rejected step) in neither, and an error or exhaustion of the order is passed on. No public API gives mutable access to only one of the halves, or writes the accounting state of a graph or generator from outside the focus operations. The item reported at a leaf is the peak memory of the scheduler's own graph.",
 ['histories','programs'],'every program using the public API, every sequence of operations',
 "Absence of an access path and agreement of sibling operations is a statement about all client programs; tests are a few of them.",
 [S+'scheduler.rs',S+'scheduler/space.rs',S+'scheduler/time.rs'],
 [('impl Focus for Scheduler',S+'scheduler.rs'),('impl FocusIterator for Scheduler',S+'scheduler.rs'),('private fields, shared-reference getters',S+'scheduler.rs')],
 [],['Scheduler::focus','Scheduler::focus_inplace','Scheduler::next_and_focus','Scheduler::at_leaf']))
R.append(P('C07','A reported pattern is the traversed path with its own time and space',
 "Whenever a search records a pattern, its steps are the measurement steps on the current route from the root to the leaf in order, its time is the number of these steps and its space is the peak memory at that leaf. A step is added to the route exactly when the search descends into it, not when it is skipped, and removed exactly when the search leaves it. A recorded pattern is never altered afterwards.",
 ['inputs','histories','schedules'],'deterministic and probabilistic, single- and multithreaded search, all inputs and timeouts',
 "No test calls the search module at all; the proptest uses its own copy of the loop.",
 [S+'search.rs',S+'search/threaded.rs'],
 [('forward / probabilistic_forward push or skip',S+'search.rs'),('backward records and pops',S+'search.rs'),('threaded do_search initial step',S+'search/threaded.rs')],
 [('current_path','route to the focused state',S+'search.rs'),('results','time -> (space, steps)',S+'search.rs')],
 ['interface::run','search::search','Path']))
R.append(P('C08','The search discards a branch only if it cannot improve the front',
 "The deterministic search skips a branch only if the branch already needs at least as much memory as a pattern known for the smallest number of steps with which the branch could still finish: one more than the route for a complete pattern, two more if everything left is measurable, three more otherwise. The known-memory table holds infinity for unknown lengths, is lowered for a length and all larger ones only to the space of a found pattern, and is indexed by the number of steps. Hence without timeout no pattern is lost that has less space than all patterns of at most its length.",
 ['inputs','schedules'],'every graph and ordering, every search mode, every interleaving of table updates',
 "An unsound bound loses optimal patterns only on particular graphs; no test compares the search functions with an exhaustive enumeration.",
 [S+'search.rs',S+'search/threaded.rs'],
 [('minimum_path_length',S+'search.rs'),('forward prune test',S+'search.rs'),('backward table update',S+'search.rs'),('threaded update()',S+'search/threaded.rs')],
 [('best_memory','number of steps -> lowest known memory',S+'search.rs')],
 ['interface::run','search::search']))
R.append(P('C09','The search returns exactly the Pareto front of what it found',
 "The returned patterns are sorted by strictly increasing time and have strictly decreasing space. A found pattern is left out only if another returned one has at most its time and at most its space; nothing is added and no pattern is modified.",
 ['inputs','schedules','configurations'],'every set of found patterns, all search modes',
 "No test calls search(); results depend on hash order and thread timing.",
 [S+'search.rs'],
 [('final filter over increasing time',S+'search.rs'),('sort_by_key time',S+'search.rs')],[],['search::search','interface::run']))
R.append(P('C10','Threads split the search without gaps and never lose a better pattern',
 "In a multithreaded search every first step is explored by exactly one task, whatever the task bound: either by its own task that starts with that step already on the route, or by the one final task that sweeps all first steps that have not been handed out; at most bound-many first steps are handed out. A task that has nothing to explore because its first step completes the measurement still reports that pattern. Merging keeps, for every length, the pattern with the least space of all tasks, independently of the order in which tasks finish.",
 ['schedules','inputs','configurations'],'all numbers of threads, task bounds, and task interleavings',
 "Depends on thread interleavings and on searches of more than a thousand steps; nothing is tested.",
 [S+'search/threaded.rs'],
 [('first-layer split loop and final task',S+'search/threaded.rs'),('task(): merge under both locks',S+'search/threaded.rs'),('update(): exchange of best memory',S+'search/threaded.rs')],
 [('shared best_memory','lowest memory over all tasks',S+'search/threaded.rs'),('shared results','best pattern per length',S+'search/threaded.rs')],
 ['interface::run with nthreads > 1']))
R.append(P('C11','A timed out search stops promptly and keeps what it found',
 "Every search loop, in every mode, polls the timer at least once per bounded constant number of iterations and ends exactly when it has fired or the whole tree has been swept, and search tasks that start after the timeout do nothing. A search that is ended by the timeout returns normally and hands in everything recorded so far. Without a timeout the timer is never started and never ends a search; with one it is started with exactly the given duration before the search begins.",
 ['schedules','inputs','configurations'],'all inputs, search modes, timeouts and thread counts',
 "Needs long running searches and wall clock time; no test runs a search.",
 [S+'search.rs',S+'search/threaded.rs'],
 [('timer.finished() in do_search / do_probabilistic_search',S+'search.rs'),('update() every UPDATE_INTERVAL steps',S+'search/threaded.rs'),('task() start',S+'search/threaded.rs'),('Timer start in search()',S+'search.rs')],
 [('update_counter','iterations since the last poll',S+'search/threaded.rs')],['interface::run timeout']))
R.append(P('C12','The timer fires only after its duration and never outlives its owner',
 "A timer reports finished only after it was started and its whole duration has elapsed, and then keeps reporting it; polling never blocks. Dropping a timer, at any moment, wakes the waiting thread and waits for it, without waiting for the remaining duration and without making it report finished. A missed or spurious wake-up changes nothing.",
 ['schedules'],'all interleavings of start, poll, elapse, spurious wake-up and drop',
 "The timer tests are wall clock tests that are excluded as flaky; interleavings of drop and start are not sampled.",
 [S+'timer.rs'],
 [('start: wait_timeout_while on the dropping flag, store on timed_out',S+'timer.rs'),('Drop: set flag under the lock, notify, join',S+'timer.rs'),('finished: atomic load',S+'timer.rs')],
 [('pair.0','dropping flag',S+'timer.rs'),('finished','elapsed flag',S+'timer.rs')],['Timer::finished','Timer::start','drop(Timer)']))
R.append(P('C13','Locks of the threaded search and timer cannot deadlock',
 "Locks are always acquired in one global order, no thread acquires a lock it already holds, and no thread holds a lock while it explores the search tree, calls an accept function, or waits for another thread (other than by the condition variable that releases it). Every access to the shared results and the shared best-memory table happens under its lock.",
 ['schedules'],'all thread interleavings, all log levels, debug and release builds',
 "A deadlock needs a particular interleaving; no test runs more than one search thread.",
 [S+'search/threaded.rs',S+'timer.rs'],
 [('task(): best_memory before results',S+'search/threaded.rs'),('update(): statement-scoped guard',S+'search/threaded.rs'),('do_search: copy under a temporary guard',S+'search/threaded.rs')],
 [],['interface::run with nthreads > 1']))
R.append(P('C14','Single-threaded searches are reproducible',
 "Without a timeout, a deterministic search and a single-threaded probabilistic search with a given seed depend on nothing but their arguments: operating system entropy is used only if a probabilistic search was asked for without seed, every random decision is drawn from the generator seeded with the given seed, and no result depends on hash map iteration order, addresses, time or thread identity. In a multithreaded search with a seed the seeds of the tasks are drawn, in hand-out order, from the generator seeded with the given seed.",
 ['inputs','histories','configurations'],'all inputs, seeds and process runs',
 "Nothing runs a seeded search twice; dependence on hash order shows in few runs.",
 [S+'search.rs',S+'search/threaded.rs',S+'scheduler/time.rs'],
 [('seed_from_u64 / from_entropy selection',S+'search.rs'),('task seeds',S+'search/threaded.rs'),('sort after unordered iteration',S+'search.rs')],
 [],['interface::run probabilistic argument']))
R.append(P('C15','Accept functions get the documented arguments and decide as documented',
 "For every descent that is not pruned, and for nothing else, a probabilistic search calls the accept function exactly once with, in this order: the lowest known memory for the minimal completion length, the lowest known memory of any pattern, the peak memory before the step, the current memory before the step, the current memory after the step, the number of nodes left to measure after the step, and the number of nodes of the graph. The step is taken if the value is at least one or exceeds a uniform random number from [0,1), and skipped otherwise.",
 ['inputs','histories','configurations'],'all accept functions (builtin, parametrised, custom), single- and multithreaded',
 "No test runs a probabilistic search; swapped arguments are all of the same type.",
 [S+'search.rs',S+'search/threaded.rs',S+'probabilistic.rs'],
 [('probabilistic_forward',S+'search.rs'),('last_* captured before next()',S+'search.rs')],[],['probabilistic::Accept']))
R.append(P('C16','The builtin accept functions compute the documented formulas',
 "The builtin accept function is zero if the difference between the lowest known memory and the larger of current memory and previous peak is negative, and otherwise total^2 * exp(-(total * remaining / difference^3 / (total - remaining))). The parametrised one is the same expression with the configured cutoff instead of zero and with each configured exponent applied to its own quantity. Selecting an accept function kind yields that function, with the given parameters, and a custom function is used unchanged.",
 ['inputs','configurations'],'all arguments and parameters',
 "No test evaluates an accept function.",
 [S+'probabilistic.rs'],
 [('builtin_heavyside',S+'probabilistic.rs'),('create_parametrized_heavyside',S+'probabilistic.rs'),('get_accept_func',S+'probabilistic.rs')],[],['AcceptFunc::get_accept_func']))
R.append(P('C17','The entry point honours every option of a run',
 "Without the search flag a run returns the trivial time-optimal schedule only and nothing else influences it. With it, graph, ordering, timeout, thread count, task bound (100000 if absent), accept function and seed all reach the search unchanged, and the search runs in the mode they ask for: single-threaded below two threads and multithreaded with that many threads otherwise, probabilistic exactly if an accept function is given.",
 ['configurations','inputs'],'all combinations of options',
 "No test calls interface::run.",
 [S+'interface.rs',S+'search.rs',S+'search/threaded.rs'],
 [('interface::run',S+'interface.rs'),('search::search mode selection',S+'search.rs')],[],['interface::run']))
R.append(P('C18','File runs write the output only after success and drop no error',
 "A run on files reads the graph and the ordering from their own paths in their own formats, and touches the output path only after both were read and the search has returned, creating the folders of the output that are missing; an unknown format is an error that touches no file. Each format name selects the same encoding for reading and for writing, and exactly the documented names serde_json and bincode are accepted. Every I/O or encoding error is returned to the caller, and success is reported only if the whole result of the run, with time, space and steps of every pattern, was handed to the file without intermediate buffering that could lose it.",
 ['inputs','fault_sequences','configurations'],'all paths, formats, file contents and I/O faults',
 "No test touches a file.",
 [S+'interface.rs'],
 [('run_serialized',S+'interface.rs'),('serialize_to_file / deserialize_from_file',S+'interface.rs'),('create',S+'interface.rs')],[],['interface::run_serialized']))
R.append(P('C19','Every command line option reaches the parameter it documents',
 "Each positional argument and option of the binary is stored under its own name and reaches exactly the corresponding parameter of the file run: paths and formats of graph, ordering and output, the search flag, the timeout in seconds, the thread count (one by default), the builtin accept function exactly if the probabilistic flag is set, and the task bound. Options are optional and positionals required, in the documented order. A failed run terminates the process with a failure.",
 ['configurations','inputs'],'all command lines',
 "The binary is never run by a test.",
 [S+'cli.rs',S+'main.rs'],
 [('cli::build / parse',S+'cli.rs'),('main',S+'main.rs')],[],['the mbqc_scheduling binary']))
R.append(P('C20','Debug and release builds compute the same schedules',
 "Code that is compiled differently in debug and release builds has the same effect on every admissible input: the unchecked graph operations used in release builds change node states and memory counters exactly as the checked ones do, and differ only in not reporting an already measured node. No assertion-only code has side effects.",
 ['programs','inputs','configurations'],'all admissible inputs, both build profiles',
 "The tests run in the debug profile only, the release-only functions are not even compiled.",
 [S+'scheduler.rs',S+'scheduler/space.rs'],
 [('impl_measure! checked/unchecked',S+'scheduler/space.rs'),('cfg(debug_assertions) in Scheduler',S+'scheduler.rs')],[],['Scheduler in release builds']))
R.append(P('C21','The trivial schedule greedily measures everything measurable each step',
 "The schedule returned without search is exactly one pattern; each of its steps is the complete measurable set at that point, steps follow until nothing is measurable, its time is the number of steps and its space the peak memory of carrying it out on the given graph.",
 ['inputs'],'all graphs and well-formed orderings',
 "No test calls it.",
 [S+'search.rs'],[('get_time_optimal',S+'search.rs')],[],['search::get_time_optimal','interface::run do_search=false']))
R.append(P('C22','Adjacency built from edges is symmetric; checked mode drops loops and duplicates',
 "Building a graph buffer from an edge list adds each endpoint to the other one's neighbour list, after translating both through the mapping if one is given (unmapped ids stay). With checking on, a self loop or an edge that is already there (in either orientation) is skipped and all other edges are kept; with checking off every edge is added. A graph starts with exactly the given neighbour lists.",
 ['inputs','configurations'],'all edge lists, mappings and both check modes',
 "One example graph with one duplicate and one loop is tested.",
 [S+'scheduler/space.rs'],[('GraphBuffer::new',S+'scheduler/space.rs'),('new_loop! / new_body!',S+'scheduler/space.rs'),('Graph::new',S+'scheduler/space.rs')],[],['GraphBuffer::new','GraphBuffer::as_buffer','Graph::nodes']))
R.append(P('C23','The dependency structure is built completely from the ordering',
 "Building a path generator registers, for every node of every layer, exactly the nodes of later layers that list it as dependency, makes exactly the nodes of the first layer measurable, and blocks every other node with the number of its listed dependencies. A mapping, if given, is applied to every node and every dependency (unmapped ids stay) before anything else, and the caller's ordering is not changed. Rebuilding into a used buffer leaves no stale entry for the nodes of the new ordering.",
 ['inputs','histories'],'all orderings, mappings and buffers',
 "Two small orderings are tested.",
 [S+'scheduler/time.rs'],[('PathGenerator::from_dependency_graph / resolve',S+'scheduler/time.rs')],[],['PathGenerator::from_dependency_graph']))
R.append(P('C24','The Python wrapper passes everything on faithfully',
 "The Python run function passes graph, ordering, search flag, timeout (in seconds), thread count, task bound, accept function and seed to the same parameters of the Rust run function, with the same defaults, and rejects custom Python callbacks for every thread count for which the Rust search would use threads. Accept function kinds select their own kind with the given parameters, a custom callback gets the seven arguments in the documented order, parameters and path fields keep their names in both directions, and unknown kinds or missing parameters raise an error. The wrapper uses only public API of the Rust crate of the same commit.",
 ['configurations','inputs','programs'],'all calls of the Python API',
 "The Python package is not built or tested here at all.",
 ['python_lib/rust/src/lib.rs','python_lib/rust/src/probabilistic.rs','python_lib/python/mbqc_scheduling/__init__.py','python_lib/python/mbqc_scheduling/probabilistic.py'],
 [('run',"python_lib/rust/src/lib.rs"),('AcceptFunc::__new__ / to_real','python_lib/rust/src/probabilistic.rs'),('Paths::transformation','python_lib/rust/src/lib.rs')],[],['mbqc_scheduling.run','mbqc_scheduling.probabilistic']))
R.append(P('C25','The benchmark generator makes well-formed instances and files numbers apart',
 "The random graphs of the benchmark are simple and symmetric: each unordered pair of distinct nodes is considered exactly once and an edge is entered at both ends with the given density. The statistics keep time and space of the three searches in fixed separate slots (time-optimal, approximated space-optimal, and first and last of the exact front), the measured wall times go to the search they belong to, and mean and deviation are taken over the results that exist.",
 ['inputs','configurations'],'all sizes, densities and seeds',
 "The benchmark crate has no tests and is not built.",
 ['results/src/plots.rs'],[('get_graph','results/src/plots.rs'),('do_it','results/src/plots.rs'),('Times::from_total','results/src/plots.rs')],[],['results/data/*.json']))
R.append(P('C26','Probabilistic searches still find good patterns',
 "With the builtin accept function a probabilistic search always returns at least one pattern when given enough time, and the returned front approaches the optimal one with a probability that grows with the search time.",
 ['inputs','histories'],'all inputs, seeds and timeouts','Statistical statement over runs.',
 [S+'probabilistic.rs',S+'search.rs'],[('builtin_heavyside',S+'probabilistic.rs')],[],['interface::run']))
R.append(P('C27','Accept values are never NaN or negative',
 "For every reachable combination of memory values and node counts, the builtin and parametrised accept functions return a number that is at least zero and not NaN.",
 ['inputs','configurations'],'all reachable arguments and parameters','No test evaluates an accept function.',
 [S+'probabilistic.rs'],[('builtin_heavyside',S+'probabilistic.rs')],[],['AcceptFunc::get_accept_func']))
R.append(P('C28','Memory and time needed by a sweep stay within the documented scaling',
 "The extra memory of a sweep grows linearly with the number of nodes times the depth of the tree, and skipping visits no more states than the exhaustive sweep.",
 ['inputs'],'all graphs and orderings','Asymptotic statement.',
 [S+'scheduler/tree.rs'],[('Sweep stack',S+'scheduler/tree.rs')],[],['Sweep']))
R.append(P('C29','The benchmark runs and records what was asked for',
 "Each subcommand of the benchmark takes exactly its required positional arguments in the fixed order (node: edge density, correction density and their kinds; density: number of nodes and edge density), and each value ends up in the run it was given for. Every step of a sweep runs with the densities asked for, each of the kind its own type argument names. The file written records what was really used: the seed of the generator, the densities or the size, the last size or number of steps swept, the number of shots per step and of threads; every step has a timeout of its own, all of them together fit in the wall time recorded, and densities outside of 0 to 1 are refused and never swept over.",
 ['inputs','configurations'],'all command lines of the benchmark',
 "The benchmark crate has no tests and is not built.",
 ['results/src/cli.rs','results/src/plots/node.rs','results/src/plots/density.rs'],[('parse','results/src/cli.rs'),('node::run','results/src/plots/node.rs'),('density::run','results/src/plots/density.rs')],[],['results/data/*.json']))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for r in R: f.write(json.dumps(r)+'\n')
for r in R:
    assert len(r['title'])<=80,(r['id'],len(r['title']))
    n=r['statement'].count('. ')+1
    if n>3: print('sentences',r['id'],n)
print(len(R))
