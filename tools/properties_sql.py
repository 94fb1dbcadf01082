SQL = "packages/sql/ffi/src/"
QN = OST + "The server is a stub that speaks PostgreSQL's messages and whose results are decided beforehand; what real databases make of statements, and the MySQL and SQLite drivers, are not covered. Encryption is not negotiated successfully. "
prop("Q01", "SQL statements run once and their results are the server's",
 "When a query or an execution succeeds, the server has run exactly its text with exactly its arguments, in their order and with their types, once, and the result is the server's: all rows with all columns in order (nulls as none, integers and floating-point numbers as numbers, booleans as booleans, texts as strings), or the number of affected rows. This holds for any tasks sharing a pool, for statements that share their text, for arguments that are computed late, and however the server's answer is split. A statement that the server fails, whose arguments are no texts or whose values have other types, or whose connection breaks, is an error, has run at most once, and later statements are not affected; nothing else is an error.",
 ["schedules", "histories", "inputs"], "every set of concurrent statements with any arguments and results, every way to split the messages, every failure of a statement or a connection at any point",
 "The package has no tests of its pool: they need a server. Wrong bindings and lost or repeated statements need particular sequences of types and failures at particular points.",
 [SQL+"pool.rs", SQL+"runtime.rs"], [("rows to lists and arguments to bindings", SQL+"pool.rs"), ("context of the runtime", SQL+"runtime.rs")],
 ["statements and arguments that arrive at the simulated server", "rows, counts and errors that calls return"], QN)
prop("Q02", "Connection pools keep their limits and recover",
 "A pool, independently of others, never runs more statements at once than its maximum of connections, runs as many at once as it has connections for, and has at least its minimum of connections once it is made. A call that finds all connections in use is given one that becomes free within its timeout, a pool of a server that starts within the timeout is made, and a call or a new pool fails for want of a connection only after the timeout and not much later. After connections broke, connecting failed, the server was restarted, or the pool was unused for long, statements succeed again as soon as the server can be reached and the growing intervals between attempts to connect have passed.",
 ["schedules", "histories", "crash_points"], "every number of pools, connections and tasks, every duration of statements relative to the timeout, restarts of the server at any point, and failures of every connection",
 "Exhaustion, restarts and long idle times need a server and many minutes; timeouts race with connections that become free.",
 [SQL+"pool.rs", SQL+"runtime.rs"], [("pool options", SQL+"pool.rs"), ("context of the runtime", SQL+"runtime.rs")],
 ["sessions and running statements at the simulated server", "simulated time around each call"], QN)
