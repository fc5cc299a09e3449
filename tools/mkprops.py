import json
P="src/pypsrp/"
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[P+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    return d
L=[]
L.append(p("P01","Outgoing messages are cut into fragments losslessly and within the size limit",
 "For every sequence of messages and every permitted packet size, the packets produced for the server hold each message's bytes exactly once and in order, no packet exceeds the permitted size, and none is empty. Each message gets its own object id, larger than every earlier one on that pool; its fragments are numbered 0,1,2,... without gaps, only the first carries the start flag and only the last the end flag, and a message is never interleaved with another.",
 ["inputs","histories"],"all packet sizes, message lengths and message counts, including every boundary where a message ends exactly at, one before or one after a fragment edge, and any history of earlier messages",
 "tests fragment a handful of fixed messages at two sizes; off-by-one errors live at exact boundary combinations of leftover space, header size and message length",
 ["powershell.py"],[("fragmenter","powershell.py Fragmenter.fragment / fragment_multiple / _byte_iterator"),("fragment header","powershell.py Fragment.pack")],["the byte strings handed to the transport"],
 [("outgoing object counter","next object id of the pool","powershell.py Fragmenter.outgoing_counter")]))
L.append(p("P02","Everything the client sends reaches the server once, whole, in order and in size",
 "Whatever a caller asks for (opening a pool, running a pipeline, feeding input, answering a prompt, exchanging keys, changing pool limits), the server can rebuild from the requests it receives exactly the messages that were asked for, each once and in the order issued, addressed to the right pool and pipeline. Input is complete and is followed by exactly one end-of-input marker, and no request exceeds the envelope size the connection announces.",
 ["inputs","configurations","histories"],"all payload sizes around every multiple of the packet size, all envelope sizes the server can negotiate, all combinations of input items, and any order of operations",
 "recorded sessions cover one payload size per operation and compare text; none checks sizes or multi-packet open, set or input messages at the edges",
 ["powershell.py","wsman.py","shell.py","messages.py"],[("open/invoke/input senders","powershell.py RunspacePool.open, PowerShell._invoke, begin_invoke, exchange_keys"),("envelope budget","wsman.py WSMan._calc_envelope_size, update_max_payload_size; powershell.py _process_session_capability")],["HTTP requests seen by the server"]))
L.append(p("P03","Server data is reassembled the same however it is split, batched or delayed",
 "The objects, records and state a caller sees depend only on the messages the server sent, not on how they were cut into fragments, grouped into responses, interleaved between messages or separated by empty or timed-out polls. If, within a message, a fragment is missing, repeated or out of order, the caller gets an error, and never a message whose content differs from what the server sent.",
 ["inputs","schedules","fault_sequences"],"every way of cutting small message sequences into fragments and responses, interleavings of two messages' fragments, and every single drop, duplication or swap of a fragment",
 "recordings contain a few natural splits; the space of cuts, groupings and damaged sequences is combinatorial",
 ["powershell.py","shell.py","messages.py"],[("defragmenter","powershell.py Fragmenter.defragment"),("receive buffer","shell.py WinRS.receive"),("message unpacking","messages.py Message.unpack")],["pipeline output and streams, exceptions"],
 [("incoming buffer","partial messages by object id","powershell.py Fragmenter.incoming_buffer")]))
L.append(p("P04","Pipeline output and every stream arrive complete, in order, in the right place",
 "When an invocation finishes, the output list holds exactly the objects the pipeline emitted, in order, and each error, warning, verbose, debug, progress and information record is in its own stream, in order, once. The call returns only when the server reported a final state, reports that state, flags errors when the pipeline failed, and keeps the failure's error record; polls that time out with no data change nothing.",
 ["histories","schedules"],"every short sequence of message kinds, every grouping into responses, timeouts between any two of them, through both the blocking and the polling interface",
 "tests replay one recording per stream; they do not vary order, batching, timeouts or the position of the final state",
 ["powershell.py","messages.py"],[("response dispatch","powershell.py RunspacePool._parse_responses"),("poll/end loop","powershell.py PowerShell.poll_invoke, end_invoke"),("stream handlers","powershell.py PowerShell._process_*")],["PowerShell.output, streams, state, had_errors"]))
L.append(p("P05","Runspace pool operations follow the documented lifecycle",
 "From every reachable pool state opening, closing, connecting, disconnecting, resetting, limit changes and metadata queries either do their documented job and move to the documented state, are no-ops where documented, or raise the invalid-state error without contacting the server or changing state. Closing releases the server's pool exactly once, a closed or broken pool never comes back or sends anything more, and a server report that the pool broke surfaces as an error.",
 ["histories"],"all sequences of open, close, connect, disconnect, reset, invoke, limit changes and server state reports up to the bound, on pools created here or found on the server",
 "tests walk a few chosen sequences; wrong transitions show up only from particular prior states",
 ["powershell.py","shell.py","exceptions.py"],[("state guards","powershell.py RunspacePool.open/close/connect/disconnect/reset_runspace_state/get_command_metadata"),("server state report","powershell.py RunspacePool._process_runspacepool_state")],["pool state, exceptions, requests on the wire"],
 [("pool state","lifecycle state","powershell.py RunspacePool.state")]))
L.append(p("P06","Pipeline operations follow the documented lifecycle, including reuse",
 "From every reachable pipeline state invoke, poll, stop, close, connect and nested creation do their documented job or raise the invalid-state error without contacting the server or changing state. Stop sends one stop signal and close one terminate signal, each naming the command the server knows; after close the same object can be invoked again, and a finished pipeline is no longer reported as disconnected or running.",
 ["histories"],"all sequences of pipeline operations and server answers (still running, completed, failed, stopped) up to the bound, with the server choosing the command id or keeping the client's, including repeated use of one object and nested pipelines",
 "tests cover single-step error cases and one reuse; multi-step histories and server-chosen ids are not explored",
 ["powershell.py","shell.py"],[("state guards","powershell.py PowerShell.begin_invoke/stop/close/connect_async/create_nested_power_shell"),("command registry","powershell.py RunspacePool.pipelines")],["pipeline state, exceptions, Signal requests"],
 [("pipeline state","invocation state","powershell.py PowerShell.state"),("command id","id the server knows the command by","powershell.py PowerShell._command_id")]))
L.append(p("P07","Disconnecting and reconnecting loses nothing",
 "A pool disconnected at any moment and reconnected, by the same connection or from another client that discovered it, yields for each of its running pipelines the same output, streams and final state as an uninterrupted run. Discovery lists every pool and command the server reports under their own ids, connecting addresses exactly those, and pool limits and private data are taken from the server's answer.",
 ["histories","schedules"],"every point of a pipeline's message sequence at which the disconnect happens, same or new client, one or two pipelines, client- or server-chosen command ids, several pools",
 "one recording of each flow exists, disconnecting at one point",
 ["powershell.py"],[("disconnect/connect","powershell.py RunspacePool.disconnect, _connect_existing_client, _connect_new_client"),("discovery","powershell.py RunspacePool.get_runspace_pools"),("pipeline connect","powershell.py PowerShell.connect_async")],["results after reconnect, requests on the wire"]))
L.append(p("P08","Pool control requests get their own answer",
 "Setting the minimum or maximum runspaces, querying availability and resetting state each return or raise according to the server's answer carrying that request's own call id, whatever other traffic arrives before it. An accepted change becomes the visible limit, a refused one raises and leaves the visible limits unchanged, a query returns the server's number and changes no limit, and a refused or failed request never disturbs a later one.",
 ["histories","schedules","fault_sequences"],"all sequences of control requests up to the bound, each accepted or refused, with state, event and pipeline traffic and empty polls interleaved in every position",
 "recordings contain one accepted and one refused request each",
 ["powershell.py"],[("call id table","powershell.py RunspacePool.ci_table, _process_runspacepool_availability"),("setters","powershell.py min_runspaces, max_runspaces, get_available_runspaces, reset_runspace_state")],["return values, exceptions, min_runspaces/max_runspaces, requests"]))
L.append(p("P09","Host calls run once and are answered under their own id",
 "Every host call the server makes, to the pool or to a pipeline, runs the matching host method exactly once with the arguments sent, in order. A call that yields a result is answered exactly once with the same call id and method, addressed to the same pool and pipeline, while a call without a result is not answered; other traffic is unaffected.",
 ["inputs","histories"],"every host method identifier, argument shapes including missing and null ones, several calls in one batch, pool and pipeline calls mixed, any call id",
 "tests call host methods directly with mocks or replay single calls; mapping and answering are not checked for every method and batch",
 ["powershell.py","host.py","messages.py"],[("host dispatch","powershell.py RunspacePool._process_host_call"),("method table","host.py PSHost.run_method")],["host object calls, response messages on the wire"]))
L.append(p("P10","Secure strings round-trip under the negotiated key and never travel in clear",
 "After a key exchange every secure string and credential sent decrypts at the server, with the key it issued, to exactly the original text, and every secure string received decrypts to the original; before it, sending one fails without any data leaving. The exchange runs at most once per pool, publishes the matching public key, tolerates other traffic and empty polls, and times out with an error after the configured time.",
 ["inputs","histories"],"all text lengths around cipher block boundaries and all code point classes, any placement inside larger objects, any order of exchange and use, client- or server-started exchange, delays of any length",
 "one fixed string is tested with one fixed key",
 ["powershell.py","serializer.py"],[("key exchange","powershell.py RunspacePool.exchange_keys, _process_encrypted_session_key"),("secure strings","serializer.py _serialize_secure_string, _deserialize_secure_string")],["bytes on the wire, decoded values"]))
L.append(p("P11","Every string survives the trip to the server and back",
 "Any text the caller can form is sent as well-formed markup that a conforming receiver decodes to the same text, and any conforming encoding the server uses for a text is returned to the caller as that text. This holds for values, property names, type text and display text alike, including control characters, characters outside the basic plane, and text that itself looks like an escape sequence.",
 ["inputs"],"all code points, and all short strings over an alphabet of the characters that interact with escaping",
 "tests sample a dozen strings; the escape grammar is ambiguous around '_x' and its interactions need combinations",
 ["serializer.py"],[("escape","serializer.py Serializer._serialize_string"),("unescape","serializer.py Serializer._deserialize_string")],["serialized XML, deserialized values"]))
L.append(p("P12","Primitive values keep their type and value in both directions",
 "Every supported primitive is sent under its protocol type with the protocol's textual form and, read back, gives an equal value of the same kind; values from the server decode to the documented Python value. An explicit type tag is honoured, an inferred one is the documented one, and null is sent and read as null at every position.",
 ["inputs"],"every tag with its minimum, maximum, zero and boundary values, every Python type that is inferred, null and optional, at top level and inside each container",
 "tests cover one mid-range value of most tags",
 ["serializer.py"],[("tag tables","serializer.py Serializer.serialize / deserialize / _get_tag_from_value")],["serialized XML, deserialized values"]))
L.append(p("P13","Containers and object graphs are rebuilt with the same shape",
 "Lists, dictionaries, queues, stacks and objects nested in any way are sent as a document a conforming reader accepts, with unique object ids and references that resolve to the right object and type list, and containing the same elements in the same order. Graphs from the server, including shared and repeated objects and repeated type lists, come back with the same values and the same sharing.",
 ["inputs"],"all nestings of the container kinds to the depth bound over a small element alphabet, all sharing patterns of up to three nodes, type lists that coincide or share a first name",
 "tests serialize fixed shapes and compare text",
 ["serializer.py","complex_objects.py"],[("containers","serializer.py _serialize_lst/_dct/_que/_stk, _deserialize_*"),("reference tables","serializer.py Serializer.obj/tn, _create_tn, _create_obj, _get_types_from_obj")],["serialized XML, deserialized values"]))
L.append(p("P14","Sending a value does not change it, and repeating gives the same result",
 "Serializing leaves the caller's value and any metadata passed with it unchanged, and doing it again, before or after any other value, gives the same document. Deserializing the same document again gives an equal value, and nothing read or written earlier, by this or another serializer, influences a later result.",
 ["inputs","histories"],"every pair and triple of operations from a table of value kinds, metadata kinds and documents, on one or two serializers",
 "tests use a fresh object for every call; cross-call leakage needs histories",
 ["serializer.py","complex_objects.py","messages.py"],[("per-call state","serializer.py Serializer._clear, metadata objects"),("shared tables","serializer.py deserialize structures table")],["values after the call, serialized XML"]))
L.append(p("P15","The pipeline sent is the pipeline that was built",
 "The commands received by the server are those added by the caller, in order, with names, script and scope flags, positional arguments and named parameters in order with their values, and split into the statements the caller marked, with the invocation options of the call, and its input items are the ones given, in order, however they are handed over. Building or sending one pipeline does not alter another, and sending the same pipeline again sends the same thing.",
 ["programs"],"all building-call sequences up to the bound over commands, scripts, arguments, parameters, statement marks and clears, including re-invocation and shared command objects",
 "tests build a few pipelines and compare text",
 ["powershell.py","complex_objects.py"],[("builder","powershell.py PowerShell.add_*"),("statement encoding","complex_objects.py Pipeline")],["create-pipeline message on the wire"]))
L.append(p("P16","Stream merging and optional features respect the negotiated protocol version",
 "Each merge request is encoded on the command it was applied to as asked and on no other, a reset undoes it, an unknown target is refused, and a feature the negotiated protocol version lacks is refused or left out of the message. Versions are ordered numerically part by part, with missing parts counting as zero.",
 ["programs","configurations"],"all merge-call sequences up to the bound, every negotiated version around the thresholds, all version pairs over a part alphabet",
 "tests check single merge calls at one version",
 ["powershell.py","complex_objects.py","_utils.py"],[("merge setters","powershell.py PowerShell.merge_*, _set_merge_to"),("command encoding","complex_objects.py Command"),("version compare","_utils.py version_equal_or_newer")],["create-pipeline message, exceptions"]))
L.append(p("P17","A response is used only if it answers this request; faults become exact errors",
 "A reply that does not name the request it answers is never treated as its result, a fault reply always raises an error carrying the server's code, machine, reason and provider details, and any other failure status raises a transport error with the status and text, or an authentication error when access is denied. No malformed, empty or foreign reply is reported as success.",
 ["inputs","fault_sequences"],"every action crossed with every reply class: right and wrong correlation, every subset of fault detail fields, numeric and symbolic codes, every status class, empty and non-XML bodies",
 "tests use a few canned faults on one action",
 ["wsman.py","exceptions.py"],[("correlation","wsman.py WSMan.invoke"),("fault parsing","wsman.py WSMan._parse_wsman_fault"),("status handling","wsman.py _TransportHTTP._send_request")],["return value or exception of each WSMan call"]))
L.append(p("P18","Every request carries the configured headers, its own id and the right timeouts",
 "Every request names its action, resource, selectors and options exactly as given, a fresh message id, the session's id, locales, endpoint and envelope size, and the operation timeout in force. A per-call timeout sets the operation timeout for that request alone and makes the network timeout two seconds longer; otherwise the configured connect and read timeouts apply.",
 ["configurations","histories"],"every action crossed with timeout, locale, size, option, selector and resource values, in any order on one connection",
 "tests compare whole recorded requests for one configuration",
 ["wsman.py","shell.py"],[("header","wsman.py WSMan._create_header, OptionSet, SelectorSet"),("timeouts","wsman.py WSMan.invoke, _TransportHTTP._send_request; shell.py WinRS.receive, _get_shell")],["HTTP requests and socket timeouts"]))
L.append(p("P19","Only safe requests are retried, boundedly, and a retry repeats the same request",
 "When the network times out, a receive is sent again, unchanged, up to its retry limit with growing pauses and then fails with the timeout; every other request is sent once and fails at once. A retry that succeeds gives the same result as no failure, no result is lost or doubled, other network errors are never retried this way, and an encrypted connection authenticates afresh before re-sending.",
 ["fault_sequences"],"every pattern of timeouts, other errors and successes over the retry budget, at each request of a session including authentication, for plain and encrypted transports",
 "tests cover one or two failure patterns",
 ["wsman.py"],[("retry loop","wsman.py _TransportHTTP.send"),("receive budget","wsman.py WSMan.receive")],["HTTP requests, pauses, result or exception"]))
L.append(p("P20","Message bodies are never sent in clear when encryption is required",
 "A connection without TLS, unless encryption was switched off, and any connection set to always encrypt, sends no request body that is not sealed by the current security context, before, during and after authentication, retries and re-authentication. Authentication methods that cannot seal are refused when the connection is created, and other configurations send plain bodies with the plain content type.",
 ["configurations","fault_sequences"],"all combinations of TLS, encryption setting and authentication method, and every pattern of timeouts and refused credentials during a session",
 "tests check constructor errors and one happy path",
 ["wsman.py","encryption.py"],[("policy","wsman.py _TransportHTTP.__init__"),("sealing","wsman.py _TransportHTTP.send; encryption.py WinRMEncryption")],["HTTP request bodies and headers"],
 [("encryption context","current sealing context","wsman.py _TransportHTTP.encryption")]))
L.append(p("P21","Sealed message framing is lossless for any content",
 "Whatever bytes a message or its sealed form contains, including line breaks, dashes, header text and the boundary itself, the framed request opens at the server to exactly the message, and a framed reply opens to exactly what the server sealed, for any compliant boundary spelling and any number of parts. Declared lengths are exact, oversized messages are split only where the protocol allows, and a reply whose length does not match is rejected.",
 ["inputs"],"all short byte strings over an alphabet of framing-relevant tokens as plain and sealed data, header lengths, part counts, boundary spellings, and sizes around the split size",
 "tests use one random message per protocol",
 ["encryption.py","wsman.py"],[("framing","encryption.py WinRMEncryption.wrap_message / unwrap_message"),("boundary extraction","wsman.py _TransportHTTP._send_request")],["framed bytes, decoded bytes, exceptions"]))
L.append(p("P22","Authentication exchanges every token in order and stops correctly",
 "A challenge is answered with the security context's tokens in order, each sent once in the scheme the server offered, and each server token is fed back exactly once, until the context is complete or the server stops; the final reply is what the caller gets. A scheme that cannot satisfy the requested one is refused, the target name, delegation, channel binding and sealing options reach the context as configured, and repeated refusal ends in an authentication error rather than a loop.",
 ["histories","configurations"],"all exchanges up to the bound over server offers, token or no token, success, refusal, and contexts needing one to four legs, for each requested provider",
 "tests replay one NTLM and one Kerberos exchange",
 ["negotiate.py","wsman.py"],[("handshake","negotiate.py HTTPNegotiateAuth.handle_401"),("header parsing","negotiate.py _check_auth_supported, _get_auth_token")],["Authorization headers, context calls, final response"]))
L.append(p("P23","Liveness checks never open a connection and never misreport",
 "Asking whether a pool is alive returns true only when the server answered for that pool and does not report it disconnected, returns false when it timed out, is unknown, is unreachable or would need a new connection, and raises any other fault. A false answer leaves the pool closed so that closing sends nothing, a true answer leaves it untouched, and new connections are blocked only during that check and only on the thread making it.",
 ["fault_sequences","schedules"],"every server answer and network failure class, connection already open or not, nested and overlapping checks on several threads, per-call timeout or not",
 "tests cover a few answers on one thread",
 ["powershell.py","_pool_manager.py","shell.py"],[("liveness","powershell.py RunspacePool.is_alive"),("connection gate","_pool_manager.py DisableNewConnectionsContext, create_request_adapter")],["return value, pool state, connection attempts"]))
L.append(p("P24","Process output, exit code and input are exact however they are delivered",
 "After a process run finishes, standard output and error hold exactly the bytes sent, in order, and the exit code is the one reported, regardless of how the server splits, pairs or delays them and of polls that time out. Input and signals reach the command the server created, shell options reach the server as configured, the shell shows the details the server gave it, every later request is addressed with all the selectors the server gave it, and the shell is deleted exactly once when left.",
 ["schedules","inputs","configurations"],"every split of output over responses with timeouts in between, where the exit code and final state appear in any allowed order, all shell option subsets",
 "tests replay three recordings",
 ["shell.py"],[("receive parsing","shell.py WinRS.receive, Process.poll_invoke"),("shell lifecycle","shell.py WinRS.open, close, _parse_shell_create")],["Process.stdout, stderr, rc, requests"]))
L.append(p("P25","A copied file arrives byte for byte or the copy fails",
 "Copying sends exactly the file's bytes in order, followed by the matching checksum of those bytes, and returns the path the server reports only when the server reported success. Every request fits the envelope, a file of any size including empty is handled, and if the server reports an error or any request fails the call raises.",
 ["inputs","fault_sequences"],"all file lengths around multiples of the chunk size for several envelope sizes, every failing request, error records before and after output",
 "tests copy three sizes at one envelope size",
 ["client.py","powershell.py"],[("reader","client.py Client.copy read_buffer")],["pipeline input on the wire, return value, exceptions"]))
L.append(p("P26","A fetched file is complete and verified before it replaces the destination",
 "Fetching leaves at the destination exactly the remote bytes, and only after their checksum matched the one the server sent. If the data is damaged, missing or unverifiable, or any request or local write fails, the call raises and the existing destination is untouched, and no temporary file is left behind either way.",
 ["inputs","crash_points","fault_sequences"],"all small contents and chunkings, every single damaged, missing or misplaced output object, a failure injected at each local file operation and each request",
 "tests fetch one file and one hash mismatch",
 ["client.py"],[("verify then copy","client.py Client.fetch")],["destination file, temporary directory, exceptions"]))
L.append(p("P27","One-shot execution helpers report exactly what the server produced",
 "Running a script returns its output lines joined in order, its streams and whether it failed; running a command returns its decoded output, error text and exit code, with the requested environment set and the pool or shell removed from the server on success and on failure. Cleaning error text turns the embedded error records, in order and unescaped, into plain text and leaves other text unchanged.",
 ["inputs","fault_sequences"],"all short outputs, stream contents, environments, encodings and failing requests, and all short embedded-error documents",
 "tests replay a few recordings",
 ["client.py"],[("helpers","client.py Client.execute_ps, execute_cmd, sanitise_clixml")],["return values, requests"]))
L.append(p("P28","The network session is configured exactly as requested",
 "Endpoint, port, scheme, path, proxy choice, certificate validation, client certificate, credentials and retry budget used on the network are those the caller configured, with explicit settings overriding the environment and disabling the proxy meaning no proxy. Certificate checking is never weaker than asked, unusable combinations are refused, and one connection's settings never affect another's.",
 ["configurations"],"the full product of server spellings, TLS, ports, paths, authentication methods, validation settings, proxy settings and environment variables",
 "tests check settings one at a time on the session object",
 ["wsman.py","_pool_manager.py"],[("session setup","wsman.py _TransportHTTP._build_session, _build_auth_*, _create_endpoint")],["arguments reaching the HTTP adapter"]))
L.append(p("P29","A failure at any step surfaces as an error and can be cleaned up",
 "If any one request of a session fails, with a fault, a network error or an unusable reply, the operation in progress raises that error and never returns a partial result as success. The caller can still close pool and pipeline afterwards, cleanup is attempted at the server when leaving a context, and another session over the same connection then works normally.",
 ["fault_sequences"],"every request position in each scenario crossed with every failure kind, followed by cleanup and a fresh session",
 "tests inject failures at one or two places",
 ["powershell.py","shell.py","wsman.py","client.py"],[("error propagation","powershell.py poll_invoke, _receive; wsman.py invoke"),("context exit","powershell.py __exit__; shell.py __exit__")],["exceptions, requests, later results"]))
L.append(p("P30","Command metadata queries return every command described by the server",
 "A metadata query sends the names, types, namespaces and arguments given and returns one entry per command the server described, in order, with name, namespace, help link, type, output types and parameters as described. It is refused without contacting the server unless the pool is open.",
 ["inputs"],"all small sets of commands and parameters, all combinations of query arguments",
 "one recording is replayed",
 ["powershell.py","complex_objects.py","messages.py"],[("query","powershell.py RunspacePool.get_command_metadata"),("decoding","complex_objects.py CommandMetadata, ParameterMetadata")],["query message, returned list"]))
L.append(p("P31","Records decode with every field the server sent",
 "Each error, warning, verbose, debug, progress and information record, of a pipeline or of the pool, and each event exposes to the caller every field the server included, with its value, and absent optional fields read as absent. The text form of an error, warning, verbose, debug or information record is the server's message, and a record with unknown or missing optional parts never causes the rest of the batch to be lost.",
 ["inputs"],"every subset of optional fields for every record kind, with distinct values, with and without invocation details, in any batch position",
 "tests check a few full records",
 ["messages.py","complex_objects.py","serializer.py"],[("record classes","messages.py ErrorRecordMessage, InformationRecord, ProgressRecord..."),("property decoding","serializer.py _deserialize_obj")],["stream records' attributes"]))
L.append(p("P32","Sessions and pipelines do not influence each other",
 "Two pools, or two pipelines of one pool, driven in any interleaving give each the same results, states and server messages as when run alone, and every message is addressed to its own pool and pipeline. This holds across threads that use separate connections and for objects reused after another session ended.",
 ["schedules","histories"],"all interleavings of two short sessions at operation or request granularity, with shared host objects and shared argument values",
 "tests run one session at a time",
 ["powershell.py","serializer.py","complex_objects.py","wsman.py"],[("per-object state","powershell.py RunspacePool, PowerShell, Fragmenter; serializer.py Serializer")],["results and requests of each session"]))
with open("/verif/properties.jsonl","w") as f:
    for d in L: f.write(json.dumps(d)+"\n")
print(len(L))
