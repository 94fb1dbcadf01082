HTTP = "packages/http/ffi/src/"
prop("H01", "HTTP servers answer each complete request once with what its handler returns",
 "A server calls its handler once for every complete request, never for an incomplete or malformed one, with exactly the method, target, headers and body sent, however they are split into packets or chunks; the client gets exactly the status, headers and body the handler returned, and pipelined requests are answered in order. A slow handler, slow client, lost connection, impolite client or unsendable response affects its own connection only; the server goes on accepting and serving.",
 ["schedules", "histories", "inputs"], "every mix of clients on concurrent connections, every split, delay, pipelining, abort and failure of accept or connection, and every suspension of handlers",
 "No test in the repository runs a server; mixing up connections, serving truncated requests or dying with one connection needs concurrency and faults.",
 [HTTP+"server.rs", HTTP+"header_map.rs", HTTP+"response.rs", "packages/http/Context/context.pen"],
 [("service function", HTTP+"server.rs"), ("header maps", HTTP+"header_map.rs")],
 ["handler calls against bytes sent by foreign clients", "responses read by foreign clients", "a request after the faults"],
 OST+"Header names occur once in a message: the package's headers are maps. ")
prop("H02", "HTTP clients make each request once and return the response or an error",
 "Sending a request makes exactly the given request, with its method, target, headers and body, once; the result is exactly the status, headers and body of the response to it, however the response is delimited or split and whatever other requests are in progress. A response that is cut short, is malformed or never comes, and a service that cannot be reached, are reported as errors, never as a response; later requests work again.",
 ["schedules", "histories", "inputs"], "every number of concurrent requests, every form, split, delay and truncation of responses, and failures of name resolution, connecting and the connection",
 "No test in the repository sends a request; truncation, retries and mix-ups need faults at particular points.",
 [HTTP+"client.rs", HTTP+"header_map.rs", HTTP+"response.rs", "packages/http/Context/context.pen"],
 [("request and response conversion", HTTP+"client.rs")],
 ["requests seen by a foreign service", "results against what it sent"],
 OST+"Header names occur once in a message: the package's headers are maps. ")
