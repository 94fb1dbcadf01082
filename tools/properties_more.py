prop("T01", "Test states hold the value last set",
 "A state made by the test package holds its initial value, and afterwards the value most recently set by any task. Gets and sets of the same state by concurrent tasks take effect one at a time in some order consistent with their order in time: a get never sees a missing value, a value never set, or one that was already replaced. Every value given to a state is released exactly once, when it is replaced or the state is dropped.",
 ["schedules", "histories"], "every interleaving of gets, sets, clones and drops of states by tasks on any number of threads",
 "Losing a value takes a get between the two halves of another; no test gets a state from two tasks.",
 ["packages/test/ffi/src/lib.rs", "packages/test/State.pen"],
 [("state cells", "packages/test/ffi/src/lib.rs")],
 ["values returned by gets, checked for linearizability", "drop counts of values"],
 OST+"Values are synchronised by the stub of compiled code before they are set. ")
