def n(oracle, cost, why, limits=None):
    return dict(oracle=oracle, cost=cost, why=why, limits=limits)


NOTES = {
"P01": n("an independent strict reassembler of MS-PSRP fragments: ids increase, start/end flags, lengths, total size, no empty packet.", "quick 22 s.", "the off-by-one lies at particular relations of message length, header size and what is already in the packet; the grid contains all of them.", "contents beyond a pattern (the code looks at lengths only)."),
"P02": n("the messages the strict server rebuilds from the requests, compared with the messages the operations should send; each request's size against the announced envelope.", "quick 30 s.", "limits depend on the negotiated envelope, on the overhead of each request kind, on options and on the operation order."),
"P03": n("the same conversation delivered unsplit; for damaged fragments, that an error is raised and nothing of the damaged message is delivered.", "quick 22 s.", "a test replays one delivery; the property quantifies over all of them."),
"P04": n("the list of records the server was told to send, by stream.", "quick 15 s.", "order and completeness depend on grouping, timed-out polls and where the final state arrives."),
"P05": n("an explicit lifecycle model of the pool (states, allowed operations, requests expected).", "quick 5 s.", "histories: an operation is wrong only after particular earlier ones."),
"P06": n("an explicit lifecycle model of the pipeline, run from several prior histories including reuse.", "quick 21 s.", "same as P05; reuse and reconnect leave state behind."),
"P07": n("the uninterrupted run of the same pipelines.", "quick 16 s (27 s under load).", "the point of disconnection matters: before, between and after each message."),
"P08": n("a model of limits and of pending call ids; answers are matched by id only.", "quick 19 s.", "late, foreign and refused answers arrive in any order."),
"P09": n("a recording host, one expected call and one expected answer per server call; for the raw interface a reference implementation of buffer and cursor semantics.", "quick 25 s.", "56 methods x results x levels, and order among batches."),
"P10": n("a server that holds the private side: decrypts with the key it issued.", "quick 12 s.", "padding and key exchange schedules; clear text must not appear in any byte sent."),
"P11": n("a strict codec of the _xHHHH_ encoding and an XML parser that rejects what is not well-formed.", "quick 6 s.", "the space of strings is where it fails: surrogates, escapes of escapes, odd offsets."),
"P12": n("a strict codec of each primitive's textual form.", "quick 4 s.", "boundary values x tag x position x direction."),
"P13": n("a strict reader/writer of the object encoding that checks id uniqueness and reference targets.", "quick 15 s.", "reference numbering depends on the shape of the whole graph."),
"P14": n("the same operation alone in a fresh process; deep snapshots of the arguments before and after.", "quick 18 s.", "history dependence only shows after particular earlier operations."),
"P15": n("a list model of commands and parameters, against the decoded message.", "quick 11 s.", "sequences of builder calls and shared argument objects."),
"P16": n("a state model of merge settings per command and version; numeric comparison of versions.", "quick 16 s.", "last-call-wins rules and thresholds at several versions."),
"P17": n("the correlation rule and the exact fault fields written into the reply.", "quick 15 s.", "field subsets: a missing element must not turn into another error or into success."),
"P18": n("an independent strict parser of each request's header.", "quick 4 s.", "leaks between calls (timeouts, options) appear only after particular calls and failures."),
"P19": n("a reference retry automaton: number of sends, pauses, bytes of each send, final outcome.", "quick 8 s.", "patterns of failures across the budget."),
"P20": n("an endpoint that looks at every body; it holds the peer of each security context and knows which is current.", "quick 18 s.", "a clear body slips out only on some leg of some failure."),
"P21": n("an independent reader and writer of the framing of MS-WSMV 2.2.9.1.", "quick 1 s.", "contents that look like framing."),
"P22": n("a reference exchange automaton; for channel bindings a real certificate and TLS socket.", "quick 4 s.", "number of legs, refusals in the middle, several offers."),
"P23": n("the documented decision table, and a probe that counts connection attempts at the socket; for threads, that nobody is left blocked.", "quick 18 s.", "thread interleavings and connection pool states."),
"P24": n("concatenation of the chunks the server sent; a lifecycle model of shell and process.", "quick 18 s.", "all compositions of output into replies with timeouts."),
"P25": n("a reference of the receiving script: rebuilds the file from the pipeline input and verifies the digest.", "quick 14 s (21 s).", "chunk boundaries, failing reads, files changing while being copied.", "the PowerShell side."),
"P26": n("the destination directory's content after every step, compared with before / the verified content.", "quick 5 s (11 s).", "crash points: every file operation and every written byte count.", "the PowerShell side."),
"P27": n("what the server was told to produce; the list of shells left.", "quick 7 s.", "all short output/stream/state sequences and awkward environments."),
"P28": n("a reference of the documented precedence of settings; observed at the sockets.", "quick 11 s, thorough 35 s.", "product of settings and environment variables."),
"P29": n("the failure-free run: results before the failure, the error raised, cleanup, next pipeline, fresh session.", "quick 24 s, thorough 180 s.", "every request position x failure kind x executed or not."),
"P30": n("independent encoder of command descriptions and decoder of the query message.", "quick 16 s, thorough 290 s.", "shapes of parameters and sequences of queries."),
"P31": n("the fields written by an independent encoder.", "quick 11 s, thorough 34 s.", "subsets of optional fields."),
"P32": n("each session alone: results, states, requests, after renaming ids canonically.", "quick 27 s, thorough 630 s.", "shared mutable state shows only in particular interleavings.", "interleavings inside a single bytecode line."),
}
