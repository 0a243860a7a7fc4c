T = 'contracts on the real code, checked function by function over clang LLVM IR by z3/cvc5; counterexamples replayed on the real code'
B = 'bounded stand-in for contracts not yet within reach: the real code run against an executable form of the property, bound stated in the evidence'
NOTES = ''
CHECKS = [
 ('C01', T, 'proof', 'processGraphNodeRecursive, processNode, processNode wrapper and the whole-graph traversal against loop invariants; visitEdges, visitNodes, getNodeById, size of the real graph; termination by a decreasing measure.'),
 ('C02', T, 'proof', 'same functions as C01; throws exactly when a back edge closes a cycle.'),
 ('C03', T, 'proof', 'isOlder, isNewer, Db::isOlder, both isUpToDate, runIfNecessary: every obligation discharged for all inputs; std::filesystem assumed.'),
 ('C08', T, 'proof', 'InputBuffer getchar, OutputBuffer putchar/write/flush and destructor, Reader/Writer wrappers: byte stream invariants over the real buffers, all obligations discharged.'),
 ('C09', T, 'proof', 'Fifo write, stop, read under arbitrary interference: thread-modular monitor contracts; std::mutex, condition_variable and list assumed.'),
 ('C10', T, 'proof', 'addTask, the queued closures, performTasks, constructor, destructor, takeLastException under arbitrary interference; std::queue and pthreads assumed.'),
 ('C11', T, 'proof', 'Event, SignalingCounter, AsyncTaskResult under arbitrary interference: thread-modular monitor contracts.'),
 ('C12', T, 'proof', 'to_nibble, Id(text), toString(Id): every obligation discharged; std::string assumed.'),
 ('C14', T, 'proof', 'shell_escape and toString(Command) against the tokenising automaton of the shell, defined step by step; the automaton itself is compared with /bin/sh in the replay.'),
 ('C19', T, 'proof', 'context, prependSearchPath (path, dependency, list), makeTargetName, getDependency, getTarget, getTargets, getUseDeps, getChildTargetUseDeps over uninterpreted path operations and an assumed JSON reader: all obligations discharged.'),
 ('C21', T, 'proof', 'toString and fromString of all five settings; strcmp assumed.'),
 ('C23', T, 'proof', 'every operation of UniqueFunction, ScopeExitHandler and InputFile against release-once postconditions; every obligation discharged; open, close assumed.'),
 ('C24', T, 'proof', 'CommandDictionary::get under arbitrary interference of other threads (answers only grow), setters: all obligations discharged; file system fixed during a lookup.'),
 ('C18', T, 'proof', 'getFullExtension (against the recursive definition, with termination) and matchLongestExtension for any dictionary: all obligations discharged; extension() and stem() of std::filesystem assumed.'),
 ('C20', T, 'proof', 'tokeniser and splitter against an escape automaton (all texts); collect_options: option search (std::lower_bound assumed, its precondition proved), value text, skipping of empty arguments, errors'),
 ('C17', T, 'proof', 'contracts on resolve, getNode and the DependencyGraph constructor (loop invariants over all files and all dependencies); std::map as an array in name order'),
 ('C16', T, 'proof', 'contracts on insertUnique and both collectTargets (loop invariants: each target of each file recorded exactly once); std::map as a map'),
 ('C04', T, 'proof', 'Symbolic execution with contracts of the compiled code of Task::status, TaskList construction and TaskList::process (dispatch loop by invariant, worker closure simulated at hand-over); bounded concurrent harness as replay'),
 ('C05', T, 'proof', 'Symbolic execution with contracts of the compiled code of Task::status, TaskList::process and the worker closure (recording, signalling order, destructor order, rethrow); bounded concurrent harness with failing and unlaunchable steps as replay'),
 ('C15', T, 'proof', 'contracts on ReadHelper::fetch (loop invariants over the stream), jsonLoad, Compound from a stream, the reader over captured output, configRecipe and getTags; jansson parser assumed'),
 ('C13', T, 'proof', 'contracts on operator|= for configurations and arrays (loop invariants over all members; nested merge by contract) and on merging compiler settings; jansson maps and arrays assumed'),
 ('C26', T, 'proof', 'Contracts on makeBuildCommand and toJson(Dependency), discharged for all records, target lists, dependency lists and properties; replay harness when an obligation fails'),
 ('C22', T, 'proof', 'Contracts on execve (all three overloads), the capture of output, and failed(), over a model of the POSIX calls with a table of descriptors; all arguments, outputs, chunkings and exit statuses'),
 ('C06', T, 'proof', 'getDependencies and get_origin against a reference automaton over the text, for every text: the loop invariant is a finite set of cases (code state, automaton state, equal strings) found by exploring the product and then discharged; regex_search assumed.'),
 ('C07', T, 'proof', 'both filterInput against a reference automaton over the text: the bytes owed to each stream after every byte of every text; invariant found by exploring the product and then discharged.'),
 ('C25', T, 'proof', 'One scan task under contract with arbitrary interference of other tasks (the map only grows): what it leaves out, loads, records and under which name, one counted task for each entry of a directory it recorded, errors kept with their text, counter released once on every path; start of the scan, InputFilter::match and source, takeResult and ScanException. Directory listing, loaders, std::map by assumed contracts; induction over the tree is on paper.'),
]
CHECKS += [(p, B, 'exploration', 'bounded; see the evidence for the bound') for p in ('C%02d' % k for k in range(1, 27)) if p not in [c[0] for c in CHECKS]]
CHECKS.sort()
NOT_APPLICABLE = {
 'C27': 'The code only compares modification times of files that recipes (separate Python processes) write; which bytes of a target survive a kill is decided by those processes and the kernel, outside any contract on this code.',
 'C28': 'The recipes are Python scripts that drive compilers as child processes; no deductive verifier for them is installed, and their effect is the effect of external compilers.',
}
