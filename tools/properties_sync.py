OSS = "packages/os-sync/ffi/library/src/"
APPS = "packages/os-sync/ffi/application/src/"
SYN = OST + "Tasks of the synchronous package run to their end where they are made. System calls are not interrupted: a program handles no signals. "
prop("Y01", "Acknowledged file writes are in the file (os-sync)",
 "In programs on the synchronous system package, when a write to a file reports a number of bytes, that many bytes from the start of its data are in the file, at the position of its handle or at the end for handles in append mode, visible at once to every reader, and stay there if the program then fails, exits or is killed. A write that reports an error has written at most a prefix of its data; errors of the disk are reported by the write they happen to.",
 ["crash_points", "histories"], "every sequence of writes through any number of handles, every failure of the disk at any of them, and every point at which the program ends",
 "The package has no tests of writing; disks in tests do not fail.",
 [OSS+"file.rs", OSS+"open_file_options.rs", OSS+"utilities.rs"], [("write", OSS+"utilities.rs")],
 ["contents of the simulated disk after each acknowledgement, at exit and after a kill"], SYN+"Covers process failure, not power loss. ")
prop("Y02", "File reads return what is in the file, whole and in order (os-sync)",
 "In programs on the synchronous system package, reading a file to its end returns exactly the bytes from the position of its handle to the end; a limited read returns at least one and at most the limit of the bytes next in the file, and none only at its end or for a limit of zero; every operation on a handle continues where the last ended. Short reads of the disk are not noticed, nor are signals while a file is read to its end; a failing disk is an error, never an early end or other data, and a limited read that a signal interrupts takes nothing.",
 ["inputs", "histories"], "every file and buffer size, every sequence of reads and writes through a handle, and every short, interrupted or failing read of the disk",
 "Chunk boundaries, short reads and errors in the middle need faults.",
 [OSS+"file.rs", OSS+"utilities.rs"], [("read to the end and limited read", OSS+"utilities.rs")],
 ["returned bytes and final contents against the contents of the simulated disk"], SYN)
prop("Y03", "File operations on names have their effect or fail (os-sync)",
 "In programs on the synchronous system package, opening with each combination of options, copying, moving, removing, measuring and listing files, and creating, listing and removing directories behave like operations on a file system: existing contents are only replaced where asked, options that a handle was not opened with are refused, a listing has each name once, a moved file is at its new name only. An operation that reports an error has changed nothing, except that a failed copy may leave part of its destination; none reports success without its effect.",
 ["inputs", "histories"], "every sequence of operations on nested names, every combination of options, and failures of the disk at each of them",
 "The space of options and prior states is large, and errors of the disk cannot be caused in tests.",
 [OSS+"file.rs", OSS+"directory.rs", OSS+"open_file_options.rs"], [("options", OSS+"open_file_options.rs"), ("operations on names", OSS+"file.rs"), ("directories", OSS+"directory.rs")],
 ["results against a model file system", "final state of the simulated disk"], SYN)
prop("Y04", "Acknowledged output is written, once and in order (os-sync)",
 "In programs on the synchronous system package, when a write to standard output or error reports a number of bytes, exactly those have been written, before it returns and whatever becomes of the program afterwards; everything written appears exactly once and in order. Debug messages are whole lines on standard error; one that cannot be written is lost, and the program goes on. Writing fails only if the system reports an error.",
 ["crash_points", "histories", "inputs"], "every sequence of messages of any content and size, short and failing writes, and every point at which the program ends",
 "Loss of buffered output needs an abrupt end or an error at the right moment.",
 [OSS+"stdio.rs", OSS+"utilities.rs", APPS+"debug.rs", APPS+"main.rs"], [("write and its flush", OSS+"stdio.rs")],
 ["bytes on the simulated standard output and error after each acknowledgement and at the end"], SYN)
prop("Y05", "Standard input is read completely, in order, each byte once (os-sync)",
 "In programs on the synchronous system package, reads of standard input together return every byte exactly once and in order; a limited read waits until some input is there, then returns at most its limit without waiting for more, and returns nothing only at the end of the input or for a limit of zero; a read of everything returns all that is left, also after limited reads.",
 ["histories", "inputs"], "every arrival pattern of the input and every sequence of limits",
 "Loss appears when input arrives in pieces and reads of different kinds follow each other.",
 [OSS+"stdio.rs", OSS+"utilities.rs"], [("shared standard input", OSS+"stdio.rs")], ["concatenated reads against the input"], SYN)
prop("Y06", "Sleeping, clocks and exits do what is asked (os-sync)",
 "In programs on the synchronous system package, a sleep lasts at least its duration, by a clock that never jumps, and ends soon afterwards; durations that are negative or no numbers end at once. The time is that of the system's clock in whole milliseconds. A program ends as soon as its main function returns or an exit is requested, with the status requested.",
 ["schedules", "inputs"], "every duration and status, interruptions of sleeping, and jumps of the clock at any point",
 "Tests cannot jump clocks.",
 [OSS+"time.rs", OSS+"process.rs", APPS+"main.rs"], [("sleep and time", OSS+"time.rs"), ("exit", OSS+"process.rs")], ["simulated time around each call", "status of the process"], SYN)
prop("Y07", "Networking transfers exactly what is acknowledged (os-sync)",
 "In programs on the synchronous system package, the bytes acknowledged by sends on a TCP connection are received exactly once and in order by the other side, a receive returns at most its limit and nothing only at the end of the stream; every connection is accepted once with its address, and failures to accept one or of one connection affect no other. Datagrams arrive whole up to 512 bytes, at most as often as the network delivers them, with the address of their sender and, on connected sockets, from the connected peer only. Failures are errors.",
 ["schedules", "histories", "inputs"], "every sequence of sends and receives against every behaviour of foreign peers, short transfers, resets, refusals, loss, duplication and reordering",
 "The package has no tests of networking.",
 [OSS+"tcp.rs", OSS+"udp.rs"], [("streams and listeners", OSS+"tcp.rs"), ("datagrams", OSS+"udp.rs")], ["bytes and datagrams sent and received on both sides"], SYN)
