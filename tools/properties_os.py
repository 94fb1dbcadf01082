APP = "packages/os/ffi/application/src/"
OS = "packages/os/ffi/library/src/"
OST = TRUST + "The kernel below libc is a model; its faults are listed in the evidence. "
prop("G01", "Results of go are computed once and delivered to everyone who asks",
 "A function passed to go starts running without anyone asking for its result, and runs exactly once. The function that go returns gives its result, the same one every time, to every caller, however many there are, whenever and on whichever task they ask, before or after it has finished; callers wait for it without stopping other tasks. Computations started by go may start others in turn.",
 ["schedules", "histories"], "every tree of go calls, every number and timing of requests for their results, and every schedule of the runtime's workers",
 "Tests of go in the repository ask once for one result; losing a wake-up, running twice or failing on the second request needs particular timing or a longer history.",
 [APP+"concurrency.rs", "lib/ffi/src/future/"],
 [("spawn of the computation and shared result", APP+"concurrency.rs")],
 ["number of runs of each function", "results against the function's value", "progress of waiting tasks"], OST)
prop("G02", "Merging lists with race keeps every element exactly once",
 "The list that race makes of several lists contains every element of every one of them exactly once, those of one list in their order, each available as soon as it has been produced whatever the other lists are waiting for, and it ends when all of them have ended. If the merged list is dropped, the evaluation of the lists behind it stops, endless ones included.",
 ["schedules", "histories", "inputs"], "every number and length of lists, finite or endless, every production schedule, and every point at which the merged list is dropped",
 "Tests merge short lists to their end; loss, duplication or an endless producer appears under particular interleavings or when consumers stop early.",
 [APP+"concurrency.rs", "lib/ffi/src/list.rs", "lib/ffi/src/future/stream.rs"],
 [("a producer per list and a bounded channel", APP+"concurrency.rs")],
 ["merged elements against the lists", "elements produced after the drop", "progress while other lists wait"], OST)
prop("G03", "Yielding lets every other ready task run",
 "A task that yields continues later, and in the meantime any other task that is ready gets to run: tasks that wait for each other by nothing but yielding all make progress, with any number of workers.",
 ["schedules"], "every number of workers and tasks and every schedule of them",
 "On a machine with several workers a yield that does nothing still passes; with one, or at the wrong moment, other tasks never run.",
 [APP+"concurrency.rs", APP+"main.rs", "lib/ffi/src/future/"],
 [("yield to the scheduler", APP+"concurrency.rs")],
 ["turns taken by each task", "progress in a bounded number of steps"], OST)
prop("G04", "Computations that need the runtime work wherever they are polled",
 "Native code on a thread outside the runtime can evaluate computations of a running program, including ones that sleep or start tasks, and gets their results; main's own computation has the runtime available throughout.",
 ["schedules"], "every interleaving of the threads that evaluate computations with the runtime's workers",
 "Needs threads that no test starts.",
 [APP+"main.rs", APP+"utilities.rs", "lib/ffi/src/future/"],
 [("entry into the runtime", APP+"main.rs")],
 ["results of the computations", "progress"], OST)
prop("O01", "Acknowledged file writes are in the file",
 "When a write to a file reports a number of bytes, that many bytes from the start of its data are in the file, at the position of its handle or at the end for handles in append mode, in the order of the handle's writes, visible at once to every reader, and they stay there if the program then fails, exits or is killed. A write that reports an error has written at most a prefix of its data; errors of the disk are reported by the write they happen to, never by nobody or by a later one.",
 ["crash_points", "schedules", "histories"], "every sequence of writes, every failure of the disk (full, I/O errors, short or interrupted writes) at any of them, and every point at which the program ends",
 "Tests write small files to a healthy disk and close them; acknowledged data that is still buffered is lost only by a fault or an exit at the right moment.",
 [OS+"file.rs", OS+"open_file_options.rs", OS+"utilities.rs"],
 [("write and its flush", OS+"file.rs")],
 ["contents of the simulated disk after each acknowledgement, at exit and after a kill"], OST+"Covers process failure, not power loss: nothing in the package promises to sync disks. ")
prop("O02", "File reads return what is in the file, whole and in order",
 "Reading a file to its end returns exactly the bytes from the position of its handle to the end; a limited read returns at least one and at most the limit of the bytes next in the file, and none only at its end or for a limit of zero; every read continues where the last ended. Short and interrupted reads of the disk are not noticed; a failing disk is reported as an error, never as an early end or as other data.",
 ["inputs", "histories", "schedules"], "every file and buffer size, every sequence of limits, and every short, interrupted or failing read of the disk",
 "Tests read small files that arrive at once; chunk boundaries, short reads and errors in the middle need faults.",
 [OS+"file.rs", OS+"utilities.rs"],
 [("read to the end and limited read", OS+"file.rs")],
 ["returned bytes against the contents of the simulated disk"], OST)
prop("O03", "Operations on a shared file are atomic to each other",
 "Reads and writes through one handle by several tasks take effect one after another: no write is torn apart by another one, no byte is read twice or skipped. Writes of handles in append mode to the same file are never mixed up and never overwrite each other or what was there.",
 ["schedules", "histories"], "every interleaving of operations by any number of tasks on shared handles and on several handles of one file",
 "Needs concurrent operations on the same handle.",
 [OS+"file.rs", OS+"open_file_options.rs"],
 [("lock of a file handle", OS+"file.rs")],
 ["linearizability of the operations against a file with one position", "final contents as an interleaving of whole appends"], OST)
prop("O04", "File operations on names take effect at one moment, or fail and change nothing",
 "Opening with each combination of options, copying, moving, removing, measuring and listing files, and creating, listing and removing directories behave like operations on one file system performed in some order that respects real time: creation of a new file succeeds for exactly one of several tasks, existing contents are only replaced where asked, options that a handle was not opened with are refused, a listing has each name in the directory once, a moved file is at its new name only. An operation that reports an error has changed nothing, except that a copy that failed may leave part of its destination behind; none reports success without having had its effect.",
 ["schedules", "inputs", "histories"], "every sequence and interleaving of operations by several tasks on nested names, every combination of options, and failures of the disk at each of them",
 "The space of options, prior states and interleavings is large, and errors of the disk cannot be caused in tests.",
 [OS+"file.rs", OS+"directory.rs", OS+"open_file_options.rs"],
 [("options passed to the system", OS+"open_file_options.rs"), ("operations on names", OS+"file.rs"), ("directories", OS+"directory.rs")],
 ["linearizability of results against a model file system", "final state of the simulated disk"], OST)
prop("O05", "Acknowledged output is written, once and in order",
 "When a write to standard output or error reports a number of bytes, exactly those have been written, before it returns and whatever becomes of the program afterwards; everything written appears exactly once, a task's messages in its order, and messages of several tasks are not torn apart by each other. Debug messages are whole lines on standard error; one that cannot be written is lost, and the program goes on. Writing fails only if the system reports an error other than an interruption.",
 ["schedules", "crash_points", "histories"], "every sequence of messages by any number of tasks, short and failing writes, and every point at which the program ends",
 "Loss of buffered output needs an exit at the right moment, and mixed messages need concurrent writers and short writes.",
 [OS+"stdio.rs", APP+"debug.rs", APP+"main.rs"],
 [("write and flush", OS+"stdio.rs"), ("debug", APP+"debug.rs")],
 ["bytes on the simulated standard output and error at each acknowledgement, exit and kill"], OST)
prop("O06", "Standard input is read completely, in order, each byte once",
 "Reads of standard input by any number of tasks together return every byte exactly once and in order; a limited read waits until some input is there, then returns at least one byte and at most its limit without waiting for more, and returns nothing only at the end of the input; a read of everything returns all that is left. Interrupted and short reads are not noticed.",
 ["schedules", "histories", "inputs"], "every arrival pattern of the input, every sequence of limits, and every interleaving of reading tasks",
 "Tests feed little input at once to one reader; loss appears when input arrives in pieces and readers share it.",
 [OS+"stdio.rs"], [("shared standard input", OS+"stdio.rs")],
 ["bytes returned against bytes supplied, as a linearizable sequence"], OST)
prop("O07", "TCP streams carry bytes in order and once, both ways at the same time",
 "On a connection, the bytes a send acknowledges arrive at the other side exactly once and in the order of the sends, sends of several tasks not mixed up within what each acknowledges; a receive returns at least one and at most its limit of the bytes that come next, and nothing only when the other side has ended the stream and everything before has been received. Tasks may send and receive on the same stream at the same time: waiting for data never keeps another task from sending, or the reverse. A broken connection is reported as an error, and data is never lost without one.",
 ["schedules", "histories", "inputs"], "every size and order of sends and limits, every number of tasks on either side, short transfers, resets, small buffers and latencies",
 "Tests exchange a few bytes on a loopback connection, one direction at a time.",
 [OS+"tcp.rs"], [("receive and send", OS+"tcp.rs")],
 ["bytes received against bytes acknowledged, as a linearizable byte queue", "progress of both directions"], OST)
prop("O08", "Every TCP connection is accepted once, and listeners survive failures",
 "A connection made to a listener is accepted exactly once, by one of the tasks that accept on it, with the address of its peer, and works. Failures to accept are reported as errors and do not stop later accepts; waiting for one connection does not stop other tasks. Binding and connecting to an address that is given by name or number, IPv4 or IPv6, succeeds unless the system reports an error.",
 ["schedules", "histories"], "every number of acceptors and clients, every order of arrival, and failures of accept, connect and name resolution",
 "Failures of accept and concurrent acceptors are not reachable in tests.",
 [OS+"tcp.rs"], [("bind, accept and connect", OS+"tcp.rs")],
 ["accepted peers against clients", "a further connection after the faults"], OST)
prop("O09", "UDP sockets deliver datagrams whole and with their sender, while others send",
 "A datagram of up to 512 bytes that a socket receives is one that was sent to it, whole, from the address it is reported with, and each is received as often as the network delivers it, by exactly one of the tasks that receive. Connected sockets exchange datagrams with their peer only. Waiting for a datagram never keeps other tasks from sending on the same socket.",
 ["schedules", "inputs", "histories"], "every size up to 512 bytes, every interleaving of sending and receiving tasks, and loss, duplication and reordering by the network",
 "Tests exchange single datagrams with nobody else waiting.",
 [OS+"udp.rs"], [("receive and send", OS+"udp.rs")],
 ["datagrams received against datagrams sent and delivered by the simulated network"], OST)
prop("O10", "Sleeping takes the time asked for, and clocks tell the time",
 "A sleep never ends before its time and ends soon after it, whatever other tasks do and however the system's clock is set meanwhile; negative and undefined times end at once. The current time is that of the system's clock, in whole milliseconds since the epoch.",
 ["schedules", "inputs"], "every duration, number of sleeping tasks, schedule, spurious or early wake-up and jump of the clock",
 "Tests cannot set clocks or interrupt waits, and check durations only loosely.",
 [OS+"time.rs"], [("sleep and time", OS+"time.rs")],
 ["simulated monotonic and real-time clocks around each call"], OST)
prop("O11", "Commands run once, with exactly their arguments, to their end",
 "Running a command starts it exactly once with exactly the given arguments in order, lazily computed ones, empty ones and ones with spaces included, and reports success only after it has ended, whatever its amount of output, which does not mix into the program's own. One that cannot be started or whose arguments are not text is reported as an error. No ended command is left unreaped and no descriptor stays open.",
 ["schedules", "inputs", "histories"], "every list of arguments, amount of output, duration, number of concurrent commands, and failures to start and wait for them",
 "Tests run a command or two with little output; full pipes, interrupted waits and leaks need faults and repetition.",
 [OS+"process.rs"], [("spawn and wait", OS+"process.rs")],
 ["processes spawned in the simulation, their arguments, states and descriptors"], OST)
prop("O12", "Programs end when they are done, with the status asked for",
 "A program ends as soon as its main function returns or an exit is requested, with the status requested, whatever its other tasks are in the middle of: waiting for input, sleeping, accepting, running commands or computing.",
 ["schedules", "crash_points"], "every combination of tasks in progress at the end and every schedule",
 "Tests end with nothing else going on.",
 [APP+"main.rs", OS+"process.rs"], [("shutdown of the runtime", APP+"main.rs"), ("exit", OS+"process.rs")],
 ["exit status and the time between the request and the end"], OST)

for _id, _where, _os, _app, _trust in [("O13", "", OS, APP, OST), ("Y08", " (os-sync)", "packages/os-sync/ffi/library/src/", "packages/os-sync/ffi/application/src/", OST)]:
    prop(_id, "Programs see exactly what they were started with" + _where,
 ("In programs on the synchronous system package, the" if _where else "The") + " arguments are those that the program was started with, without its name, all of them, in order and byte for byte, also ones that are empty or not UTF-8, on whatever task and however often they are asked for. An environment variable has exactly its value; one that is not set, whose value is not UTF-8, or whose name no variable can have, is an error, and the program goes on.",
 ["inputs", "schedules"] , "every list of arguments and set of variables, with any bytes in them, and every interleaving of tasks that ask for them",
 "Tests are started by the test runner, with its arguments and its environment.",
 [_os+"argument.rs", _os+"environment_variable.rs"], [("arguments", _os+"argument.rs"), ("variables", _os+"environment_variable.rs")],
 ["arguments and variables against those of the simulated start"], _trust)
