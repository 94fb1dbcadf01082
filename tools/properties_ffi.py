TRUST = "Seeded search, not exhaustive: it shows no violation in the executions explored. Trusts the simulator's model of the machine (sequentially consistent stores with happens-before race detection from compiler instrumentation), the stand-ins listed in the evidence, and the oracle in the scenario. "
FFI = "lib/ffi/src/"
prop("C01", "Shared values are destroyed exactly once, after their last use",
 "A reference-counted value that Pen code and native code share (numbers, strings, closures, handles and anything nested inside them) stays intact and readable through every handle for as long as any handle to it exists, on whatever thread; strings are equal exactly if their bytes are. When the last handle goes, its contents are destroyed exactly once and its memory is given back exactly once; statically allocated values are never counted or freed.",
 ["schedules", "histories"], "every interleaving of clones, reads, sends and drops of the handles by any number of threads, for every nesting of shared values",
 "Unit tests clone and drop values on one thread; a lost count, a missing fence or a double free needs two threads at a particular point.",
 [FFI+"arc.rs", FFI+"arc/arc_block.rs", FFI+"arc/arc_buffer.rs", FFI+"string.rs", FFI+"closure.rs", FFI+"any.rs"],
 [("atomic count with release decrement and acquire fence before destruction, plain count before synchronisation", FFI+"arc/arc_block.rs"), ("drop glue of closures and any values", FFI+"closure.rs")],
 ["destructor runs of payloads", "allocator calls", "bytes read through each handle"], TRUST,
 [("count", "number of handles, negative once the block is shared between threads, 0 for static blocks", FFI+"arc/arc_block.rs")])
prop("C02", "Mutable access to a shared value is exclusive",
 "Native code is given mutable access to a reference-counted value if, and only if, it holds the only handle to it at that moment. Writes made through such access are seen by every later reader, and earlier readers on other threads never observe them half done.",
 ["schedules", "histories"], "every interleaving of threads cloning, dropping, reading and asking for mutable access to the same value",
 "Whether a handle is the only one is decided by a racy-looking read; tests ask on one thread only.",
 [FFI+"arc.rs", FFI+"arc/arc_block.rs"],
 [("uniqueness test with acquire ordering", FFI+"arc/arc_block.rs"), ("get_mut", FFI+"arc.rs")],
 ["result of asking for mutable access against a model count", "data races on the payload"], TRUST)
prop("C03", "Dynamically typed values keep their type and contents",
 "A value converted to a dynamically typed value and back is the same value: conversion to the type it was made from succeeds and gives its contents unchanged, conversion to any other type is refused without disturbing it, and it may be cloned, moved between threads and dropped freely in between. Each contained value is destroyed exactly once in the end, however it was stored.",
 ["schedules", "inputs", "histories"], "every type and payload that fits a dynamically typed value, and every interleaving of clones, conversions and drops between threads",
 "Tests convert a few types on one thread; ownership mistakes appear when clones are converted and dropped by several threads.",
 [FFI+"any.rs", FFI+"type_information.rs", "lib/ffi-macro/src/any.rs", "lib/ffi-macro/src/into_any.rs"],
 [("type information table with clone, drop and synchronise functions", FFI+"type_information.rs"), ("payload encoding", "lib/ffi-macro/src/any.rs")],
 ["conversion results", "destructor counts", "allocator calls"], TRUST)
prop("C04", "Asynchronous calls return exactly one correct result",
 "A call between native and compiled code, in either direction and at any depth, returns exactly once with the value of its callee, whatever suspends in between, in whatever order wakers fire, however often tasks are polled spuriously and on whichever threads they run. A caller makes progress whenever its callee has become ready. Lazy values and lists reached through it are evaluated at most once per node and in order.",
 ["schedules", "histories", "inputs"], "every tree of calls, every placement of suspensions in it, every order of wake-ups, spurious polls and migrations between workers",
 "Tests call synchronous functions or futures that are ready after one poll, on one thread.",
 [FFI+"future.rs", FFI+"future/call.rs", FFI+"future/call_function.rs", FFI+"future/from_closure.rs", FFI+"future/to_closure.rs", FFI+"future/stream.rs", FFI+"cps/async_stack.rs", FFI+"cps/import.rs", FFI+"list.rs", "lib/ffi-macro/src/bindgen.rs"],
 [("trampoline between continuations and futures", FFI+"future/"), ("call!, import! and bindgen expansions", "lib/ffi-macro/src/")],
 ["returned values against a recursive model of the call tree", "number of evaluations", "progress once everything is ready"], TRUST)
prop("C05", "Call frames survive suspension, and misuse of a stack is refused",
 "Values saved on an asynchronous call stack come back intact and in last-in first-out order however often the call is suspended, moved between threads or its stack grown. The polling context handed to native code is the one of the poll in progress and is gone once that poll ends. Operations out of order, such as resuming a call that is not suspended, are refused with an error and change nothing.",
 ["schedules", "histories", "inputs"], "every sequence of pushes, pops, suspensions, resumptions and growth, with frames of every size and alignment",
 "Tests push one or two frames that fit the initial stack; growth while suspended and stale contexts need longer histories.",
 ["lib/ffi/src/cps/async_stack.rs", "lib/ffi/src/cps/stack.rs", "lib/ffi/src/cps/async_stack_action.rs", "lib/ffi/src/cps/error.rs"],
 [("stack growth and frame layout", "lib/ffi/src/cps/stack.rs"), ("suspend, resume, resolve and context bookkeeping", "lib/ffi/src/cps/async_stack.rs")],
 ["popped values against a model stack", "context identity at each poll", "errors for misuse"], TRUST)
prop("C06", "Dropping a call in progress is memory safe and final",
 "A call in progress may be dropped at any point, on any thread, also while its callee is about to wake it. Nothing of it runs afterwards, no value is destroyed twice or used after destruction, and other calls are not disturbed.",
 ["schedules", "crash_points", "histories"], "every point at which a call can be dropped, for every tree of calls and every interleaving with wakers",
 "No test drops a call that has started.",
 ["lib/ffi/src/future/", "lib/ffi/src/cps/stack.rs", "lib/ffi/src/cps/async_stack.rs"],
 [("ownership of stack frames and results on drop", "lib/ffi/src/cps/stack.rs")],
 ["allocator calls", "destructor counts", "polls after drop"], TRUST+"Makes no claim that a dropped call releases everything its frames still hold.")
prop("C07", "Completed calls leave nothing behind",
 "When every call has completed and every handle to its result has been dropped, all memory, values and wakers that the calls created or received have been released: nothing leaks, whatever the order of suspensions and wake-ups was.",
 ["schedules", "histories"], "every tree of calls and every order of suspension, wake-up and migration in it",
 "Tests do not look at what remains; a leak changes no result.",
 ["lib/ffi/src/future/", "lib/ffi/src/list.rs", "lib/ffi/src/arc.rs", "lib/ffi-macro/src/"],
 [("ownership transfer at each crossing of the calling convention", "lib/ffi-macro/src/bindgen.rs"), ("stack release", "lib/ffi/src/cps/stack.rs")],
 ["live allocations attributed to the calls", "live wakers", "destructor counts"], TRUST)
prop("C08", "Operations on shared text are right and leave their operands alone",
 "The string operations of the core and prelude packages (joining, slices in bytes and characters, views, searching, splitting, replacing, trimming, cases, lengths, code points, comparison and hashing) give what they define for every string and position, strings that are not UTF-8 and positions outside of the string included, on whatever thread and however many others use the same strings. A number that the core, prelude or json package prints reads back as the same number, text that is no number is refused as a whole, and the arithmetic of core is exact where its results are. Text that the html package escapes has no markup and reads back as the same text. Joining includes every part once, in order, also when the task moves between threads in between. The operands stay what they are, and nothing of a string is released while a result still needs it or kept when nothing does.",
 ["schedules", "inputs", "histories"], "every string and position, and every interleaving of tasks that share strings and move between threads",
 "Tests have some arguments each, on one thread, with strings that nothing else holds; the builder behind joining needs exclusive access to a value that moves between threads.",
 ["packages/core/ffi/src/string.rs", "packages/core/ffi/src/string/builder.rs", "packages/core/ffi/src/string/byte.rs", "packages/core/ffi/src/string/utf8.rs", "packages/core/ffi/src/view.rs", "packages/core/ffi/src/number.rs", "packages/core/ffi/src/bit.rs", "packages/core/ffi/src/character.rs", "packages/prelude/ffi/src/lib.rs", "packages/json/ffi/src/lib.rs", "packages/html/ffi/src/lib.rs", FFI+"string.rs", FFI+"arc/arc_buffer.rs"],
 [("string builder", "packages/core/ffi/src/string/builder.rs"), ("operations on characters", "packages/core/ffi/src/string/utf8.rs"), ("operations on bytes", "packages/core/ffi/src/string/byte.rs")],
 ["results against naive models", "operands after each operation", "allocator calls"], TRUST)
prop("C09", "Long computations run in constant space",
 "However many asynchronous calls a loop of compiled code makes, whether they have their results at once or suspend, the native stack does not get deeper and the memory held does not grow from turn to turn; each turn gets the result of its own call.",
 ["schedules", "inputs", "histories"], "every number of turns, kind of callee, and order of suspensions, wake-ups and migrations between workers",
 "Tests make a few calls, which fit on any stack.",
 [FFI+"cps/async_stack.rs", FFI+"future/to_closure.rs", FFI+"future/from_closure.rs", "lib/ffi-macro/src/bindgen.rs"],
 [("continuations called from the bottom of the native stack (trampoline)", FFI+"cps/async_stack.rs"), ("results handed to continuations", "lib/ffi-macro/src/bindgen.rs")],
 ["addresses of the native stack at each turn", "live memory at each turn"], TRUST)
prop("C10", "Regular expressions give the same matches however they are shared",
 "A regular expression that the regex package has compiled finds the leftmost match with the alternatives and repetitions preferred as they are written, and gives the text of every group, none for groups that took no part, for every text, whichever and however many tasks use the expression at the same time and however its handles are cloned and dropped. A text that is not UTF-8 matches nothing; a pattern that is no expression is refused with an error. Nothing remains once the last handle of an expression is gone.",
 ["schedules", "inputs", "histories"], "every expression and text, and every interleaving of threads that compile, share, use and drop expressions",
 "Tests have one expression and text each, on one thread; an expression has a store of scratch space that all of its users share.",
 ["packages/regex/ffi/src/lib.rs"],
 [("compiled expressions behind a shared handle", "packages/regex/ffi/src/lib.rs")],
 ["groups against a backtracking model", "errors", "allocator calls"], TRUST+"Classes, repetitions, groups, alternatives and anchors are generated; names, flags, Unicode classes and word boundaries are not.")
prop("C11", "Random numbers are even, distinct and from the system's randomness",
 "Every number of the random package lies between zero and one, one excluded. The numbers that any number of threads draw, also threads that start at the same moment, are evenly distributed in every binary digit, do not repeat each other, and derive from randomness that the operating system has given, also if it gives it in parts or is interrupted.",
 ["schedules", "histories"], "every number of threads and of draws, every interleaving of them, and every way in which the system gives its randomness",
 "Tests cannot tell numbers of a clock or of a shared state from random ones, and no test draws on two threads.",
 ["packages/random/ffi/src/lib.rs"],
 [("generator of the thread", "packages/random/ffi/src/lib.rs")],
 ["range and digits of the numbers", "repetitions among all threads", "bytes of randomness taken from the system"], TRUST+"Statistical: bounds are set nine standard deviations away. That the generator cannot be foreseen is not shown beyond its use of the system's randomness.")
