import tasks

ASSUMPTIONS = [
    "every dependency of a source file refers to the id of a node of the same graph (that is property C17's postcondition)",
    "visitNodesInTopoOrder and processGraphNodeRecursive call their callback once per node, prerequisites first (C01/C02 contracts), and the pool runs each submitted closure once and keeps an escaping exception (C09/C10 contracts)",
    "std::list<Task> is modelled as an array of steps with a set of live indices; erase/clear/push_back change only that set",
    "other threads change the results array only by moving an entry from Pending to its final value (the guarantee proved for the worker closure, the only writer)",
    "progress of the dispatcher's wait: the closure records its result before it releases the event (proved, destructor order included); that a step in flight exists whenever every remaining step was seen waiting follows from acyclicity (C01) by a pen-and-paper argument given in DESIGN.md",
    "std::atomic loads and stores are sequentially consistent; the compile step's own execution (Invoker::execve) may return any exit status or throw",
]


def run(S):
    tasks.check(S, ('status', 'process', 'make'), ['C05'])
