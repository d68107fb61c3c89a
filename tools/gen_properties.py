#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that long texts stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
p("C01", "Values keep their type and content through store, copy, encode, compare",
  "A value of any supported type, with any content, reads back through its typed accessor exactly as stored, and keeps type and content through replace, copy, swap and binary encode/decode. "
  "Comparing two values of the same type reports equality exactly when their contents are equal, and for ordered types its sign agrees with the natural order of the contents; numbers compare by their numeric value whatever their types. "
  "No such operation reads or writes outside the value's own storage, and releasing every reference frees everything.",
  ["inputs", "histories"], "all types x all contents (extreme numbers, empty/large strings and byte arrays, nested properties and objects) x sequences of set/copy/swap/encode/decode/compare",
  "Unit tests set a handful of literals per type; they do not cover extreme contents, cross-size comparisons or sequences that replace one type by another.",
  ["src/rbus/rbus_value.c", "src/rbus/rbus_buffer.c", "include/rbus_value.h"],
  [("typed set/get, copy, compare, encode/decode", "src/rbus/rbus_value.c"), ("growable byte buffer", "src/rbus/rbus_buffer.c")],
  ["rbusValue_* public API", "rbusValue_Encode/Decode"])
p("C02", "Value text conversion is faithful and stays inside the caller's buffer",
  "Rendering any value as text into a caller-supplied buffer writes at most the stated number of bytes, yields the same characters (cut to fit) as rendering into an allocated buffer, and terminates the text whenever it fits. "
  "For booleans, integers, strings, characters and date-times the rendered text parses back into an equal value, for floating point numbers into one equal within the printed precision; text that does not denote a value of the type is refused and leaves the value unchanged. "
  "Writing an object, property list or filter to a stream shows every entry exactly once, in order, with its depth, type and text.",
  ["inputs"], "all types x all contents x all buffer sizes, and all texts for parsing",
  "Tests render and parse a few fixed values with ample buffers.",
  ["src/rbus/rbus_value.c"], [("ToString / SetFromString / *Ex coercions", "src/rbus/rbus_value.c")], ["rbusValue_ToString", "rbusValue_SetFromString"])
p("C03", "Property lists and objects behave as ordered collections with sound ownership",
  "After any sequence of append, insert-by-name, replace, remove, copy, nest and release calls, a property list or object tree contains exactly the entries a simple ordered model contains, in the same order and reachable by name, and comparing two of them reports equality exactly when the models are equal. "
  "Every item stays valid while some holder still references it and is freed when the last one lets go, also when several threads retain and release it at the same time.",
  ["histories", "inputs"], "all sequences of list/object operations, shared ownership patterns and nesting depths",
  "Tests exercise single fixed sequences; sharing, partial release and mid-list replacement are sampled once or not at all.",
  ["src/rbus/rbus_property.c", "src/rbus/rbus_object.c"], [("linked list + refcount", "src/rbus/rbus_property.c"), ("object tree + refcount", "src/rbus/rbus_object.c")],
  ["rbusProperty_*", "rbusObject_*"])
p("C04", "Filters decide exactly the expression they were built from",
  "A filter built from relations (equal, not equal, less, less-or-equal, greater, greater-or-equal) and AND/OR/NOT of any shape accepts a value exactly when the Boolean expression it denotes is true for that value. "
  "Encoding and decoding a filter, or sending it to another process, yields a filter that compares equal and takes the same decisions.",
  ["inputs"], "all expression trees x all relation operand types x all tested values",
  "Tests evaluate a few hand-written filters of depth at most two.",
  ["src/rbus/rbus_filter.c", "src/rbus/rbus_value.c"], [("recursive apply, encode, decode, compare", "src/rbus/rbus_filter.c")],
  ["rbusFilter_Apply", "rbusFilter_Encode/Decode", "rbusFilter_Compare"])
p("C05", "Message fields are delivered as packed, in order, with correct type",
  "Any sequence of fields (integers, doubles, booleans, strings, byte arrays, nested values, properties, objects, filters) packed into a bus message is unpacked unchanged in the same order after a byte-level round trip, and the message's method name, trace and routing metadata survive too. "
  "Asking for a field of the wrong type or past the end reports an error and does not disturb the fields already read.",
  ["inputs", "histories"], "all field sequences x all contents x all read orders including mistyped reads",
  "Tests pack a few known fields and read them back in the expected order.",
  ["src/core/rbuscore_message.c", "src/rbus/rbus.c", "src/core/rbuscore.c"], [("msgpack pack/unpack", "src/core/rbuscore_message.c"), ("value/property/object payload", "src/rbus/rbus.c")],
  ["rbusMessage_Set*/Get*", "rbusMessage_ToBytes/FromBytes"])
p("C06", "Malformed bytes from peers or disk are rejected without memory damage",
  "Whatever bytes arrive as an encoded value, filter, bus message, frame header, JSON control message, base64 text or saved-subscription file, decoding either yields a well-formed result or reports failure, always terminating, and never reads or writes outside the input or the result.",
  ["inputs"], "all byte strings, in particular truncations and corruptions of valid encodings",
  "No test feeds malformed bytes; a fault shows only for particular corrupt lengths or types.",
  ["src/rbus/rbus_value.c", "src/rbus/rbus_filter.c", "src/rbus/rbus_buffer.c", "src/core/rbuscore_message.c", "src/rbus/rbus_subscriptions.c", "src/rtmessage/rtMessageHeader.c", "src/rtmessage/rtBase64.c"],
  [("length checks in the decoders", "src/rbus/rbus_buffer.c"), ("header length checks", "src/rtmessage/rtMessageHeader.c")],
  ["rbusValue_Decode", "rbusFilter_Decode", "rbusMessage_FromBytes + Get*", "rtMessageHeader_Decode", "rtBase64_decode", "provider start with a corrupt cache file"])
p("C07", "The router's topic table resolves names to exactly the current owners",
  "After any sequence of adding and removing topics by any set of clients, looking a name up returns exactly the owner registered for it (or, where no route exists under the name itself, for the table row pattern it instantiates), a wildcard or partial path returns exactly the set of distinct owners of names below it, and names whose owner has gone resolve to nobody. "
  "An element name has at most one owner: a second claim is refused while the first stands and accepted once it is gone.",
  ["histories", "inputs"], "all histories of add/remove/client-exit over nested names with table placeholders and instance numbers, and all queried names",
  "Tests look up a handful of names after one registration order and never remove part of a subtree.",
  ["src/rtmessage/rtRoutingTree.c", "src/rtmessage/rtrouted.c"], [("topic tree, routes per topic", "src/rtmessage/rtRoutingTree.c")],
  ["rtRoutingTree_* functions", "routing of requests through the broker"])
p("C08", "Frames, JSON control messages and base64 text round-trip exactly",
  "A frame header with any field values and topic names within the limits decodes to what was encoded and reports its exact length; a control message returns every field with the value set, for any strings, numbers, arrays and nested messages under names distinct but for case, also after serialisation (there doubles within the precision of the text); base64 encoding agrees with the standard alphabet and padding and decodes back to the same bytes.",
  ["inputs"], "all field values, topic lengths, field names, strings (including quotes, escapes, non-ASCII) and binary payload sizes",
  "Tests use short fixed topics and strings.",
  ["src/rtmessage/rtMessageHeader.c", "src/rtmessage/rtEncoder.c", "src/rtmessage/rtMessage.c", "src/rtmessage/rtBase64.c"],
  [("big-endian encoder", "src/rtmessage/rtEncoder.c"), ("cJSON wrapper", "src/rtmessage/rtMessage.c"), ("base64", "src/rtmessage/rtBase64.c")],
  ["rtMessageHeader_Encode/Decode", "rtMessage_*", "rtBase64_encode/decode"])
p("C09", "Lists, vectors, maps and thread pools behave as their abstract models",
  "Under any sequence of operations the list, vector and hash map of the messaging library hold exactly the items of a sequence or dictionary model, call the supplied clean-up exactly once per item given up, and never touch freed storage. "
  "A thread pool runs every accepted task exactly once, never runs more tasks at a time than its limit, and can be stopped and destroyed at any moment.",
  ["histories", "schedules"], "all operation sequences, sizes across growth thresholds, colliding keys; task submission patterns and stop points",
  "Tests use a few items, below growth thresholds, and no interleavings.",
  ["src/rtmessage/rtList.c", "src/rtmessage/rtVector.c", "src/rtmessage/rtHashMap.c", "src/rtmessage/rtThreadPool.c", "src/rtmessage/rtSemaphore.c", "src/rtmessage/rtTime.c"],
  [("doubly linked list with item recycling", "src/rtmessage/rtList.c"), ("growable array", "src/rtmessage/rtVector.c"), ("bucketed map with resize", "src/rtmessage/rtHashMap.c"), ("worker threads", "src/rtmessage/rtThreadPool.c")],
  ["rtList_*", "rtVector_*", "rtHashMap_*", "rtThreadPool_*"])
p("C10", "A provider's element tree finds exactly the registered element for a name",
  "After any sequence of registering elements and adding, aliasing and deleting table rows, looking up a full name (by instance number or by alias) finds the element registered for it and nothing else, enumerating a partial path or wildcard yields exactly the existing instances below it, and a deleted row and everything below it can no longer be found. "
  "A subscription pattern selects exactly the instances its row numbers, aliases and wildcards describe, also as rows come and go; a pattern bound to a row that is deleted ends with it.",
  ["histories", "inputs"], "all registration orders, table nestings, row additions/deletions/aliases and all queried names",
  "Tests build one fixed tree and look up a few names in it.",
  ["src/rbus/rbus_element.c", "src/rbus/rbus_tokenchain.c"], [("element trie with table templates", "src/rbus/rbus_element.c"), ("token chain matching", "src/rbus/rbus_tokenchain.c")],
  ["element tree functions", "token chain match", "rbus_get through the bus"])
p("B01", "A parameter read returns what the provider holds; a write reaches it unchanged",
  "For any registered parameter and any value, a get by another process returns exactly the provider's current value with its type and name, and a set hands the provider exactly the value sent, with the sender's identity, session and commit choice. "
  "When the provider refuses, or the name is unknown, has no handler or is of the wrong kind, the caller gets an error that says so and no other element is touched.",
  ["inputs", "histories"], "all value types and contents (including payloads above internal buffer sizes), names, handler outcomes and get/set sequences over several components",
  "Tests get and set a few fixed values between one provider and one consumer.",
  ["src/rbus/rbus.c", "src/core/rbuscore.c", "src/rtmessage/rtConnection.c", "src/rtmessage/rtrouted.c"],
  [("get/set request handlers", "src/rbus/rbus.c"), ("method invocation over the broker", "src/core/rbuscore.c")],
  ["rbus_get, rbus_set and typed variants", "provider get/set handlers"])
p("B02", "Multi-name, wildcard and partial-path reads return exactly the union",
  "Reading several names, wildcards and partial paths at once returns exactly the properties that reading each matching existing parameter alone would return, each once per request item and with correct values, across all components and table rows. "
  "If any of several requested names fails the read reports failure rather than a silently partial result (a single wildcard is answered by the providers that can).",
  ["inputs", "histories"], "all mixes of names, partial paths and wildcards over nested tables spread over several components, with failing handlers",
  "Tests read a few fixed wildcard paths of one provider.",
  ["src/rbus/rbus.c", "src/rbus/rbus_element.c", "src/rtmessage/rtrouted.c"], [("getExt batching and wildcard expansion", "src/rbus/rbus.c"), ("wildcard destination discovery", "src/rtmessage/rtrouted.c")],
  ["rbus_getExt"])
p("B03", "Multi-parameter writes are all-or-nothing and name the offending parameter",
  "Setting several parameters in one call either applies every value in order and reports success, or reports the failure and leaves no parameter of the rejected provider batch changed: when a provider's handler refuses one value, values already handed over in that call are put back. "
  "The failing parameter is named when the caller asks for it, and unknown, read-only or wrong-kind names make the call fail without effects on other parameters.",
  ["inputs", "histories"], "all lists of parameters (valid, unknown, read-only, refusing) over one or several components, both reporting variants",
  "Tests try one or two fixed failing positions.",
  ["src/rbus/rbus.c"], [("set handler with rollback", "src/rbus/rbus.c"), ("multi-component set", "src/rbus/rbus.c")],
  ["rbus_setMulti, rbus_setMultiExt", "provider state after the call"])
p("B04", "Tables and rows keep a consistent, addressable set of instances",
  "After any history of adding rows (with or without aliases), removing rows by number or alias and registering rows from the provider side, exactly the live rows are listed, addressable by number and alias, and readable; instance numbers are unique, and a removed row's parameters, nested tables and alias stop resolving. "
  "Adding to or removing from something that is not a table or row, a duplicate alias, or a row the provider refuses leaves the table as it was and reports an error.",
  ["histories", "inputs"], "all histories over nested tables and several clients, with provider refusals",
  "Tests add and remove a few rows in one order.",
  ["src/rbus/rbus.c", "src/rbus/rbus_element.c"], [("table row add/remove handlers", "src/rbus/rbus.c"), ("row instantiation", "src/rbus/rbus_element.c")],
  ["rbusTable_addRow/removeRow/registerRow/unregisterRow/getRowNames", "rbus_get on row parameters"])
p("B05", "Introspection and discovery describe exactly what is registered",
  "Asking the bus which components exist, which component provides a name, which names a component provides, and what kind, access and subscriptions an element has, yields answers that agree with the current registrations of all live components, for any mix of known and unknown names in one query.",
  ["histories", "inputs"], "all registration histories over several components and all query lists",
  "Tests query one provider with known names.",
  ["src/core/rbuscore.c", "src/rtmessage/rtrouted.c", "src/rbus/rbus.c"], [("discovery requests", "src/core/rbuscore.c"), ("discovery answers", "src/rtmessage/rtrouted.c"), ("elementInfo", "src/rbus/rbus.c")],
  ["rbus_discoverComponentName", "rbus_discoverComponentDataElements", "rbusElementInfo_get", "rbus_discoverRegisteredComponents"])
p("B06", "A name has one provider: registration is exclusive and all-or-nothing",
  "At any time each element or component name is served by at most one component; registering a set of elements either makes all of them reachable or, on a clash or invalid element, none of them, and reports the clash. "
  "After unregistration, close or death of the provider its names are unreachable with a clear error and may be taken over by another component, which then receives the requests.",
  ["histories", "crash_points"], "all histories of register/unregister/open/close/kill by several processes with overlapping names",
  "Tests register once per process and do not interleave clashing registrations, failures and exits.",
  ["src/rbus/rbus.c", "src/core/rbuscore.c", "src/rtmessage/rtrouted.c", "src/rtmessage/rtRoutingTree.c"],
  [("registration with roll back", "src/rbus/rbus.c"), ("route table", "src/rtmessage/rtrouted.c")],
  ["rbus_open/close", "rbus_regDataElements/unregDataElements", "rbus_get from another process"])
p("B07", "Each published event reaches exactly its current subscribers, once, in order",
  "Every event a provider publishes is delivered exactly once, with its name, type, payload and the subscriber's own context, to each subscription that covers its name at that moment, and to nobody else; each subscriber sees one provider's events in publishing order. "
  "After an unsubscribe returns, or after the subscriber has closed or died, that subscription receives nothing more, and the provider is told of every accepted subscription, and of its end by unsubscribing or closing, exactly when they happen.",
  ["histories", "inputs"], "all histories of subscribe/unsubscribe/publish/close/kill over several subscribers, names, wildcard and row patterns, payload shapes and both delivery kinds (object and raw)",
  "Tests subscribe one consumer to a few events in one order.",
  ["src/rbus/rbus.c", "src/rbus/rbus_subscriptions.c", "src/core/rbuscore.c", "src/rbus/rbus_tokenchain.c"],
  [("subscription registry", "src/rbus/rbus_subscriptions.c"), ("client event tables", "src/core/rbuscore.c"), ("publish", "src/rbus/rbus.c")],
  ["rbusEvent_Subscribe*/Unsubscribe*/Publish*", "event callbacks", "provider subscribe handler calls"])
p("B08", "Row changes keep every subscription pointing at the right instances",
  "A subscription with a row wildcard covers rows added later and stops covering rows deleted, while deleting or adding one row never affects the delivery of events for other rows, other elements or other subscribers; a subscription to an element of one particular row ends with that row. "
  "Adding or deleting a row notifies exactly the subscribers of that table with the right row name, number and alias.",
  ["histories"], "all interleavings of row add/delete with subscribe/unsubscribe/publish on nested tables by several subscribers",
  "Tests subscribe either before or after a single row addition.",
  ["src/rbus/rbus_subscriptions.c", "src/rbus/rbus.c", "src/rbus/rbus_element.c"], [("element created/deleted hooks", "src/rbus/rbus_subscriptions.c")],
  ["rbusEvent_Publish delivery", "object created/deleted events"])
p("B09", "Value-change subscriptions report each filtered transition faithfully",
  "A subscriber to a parameter's changes gets, for every change made through the bus or noticed by polling, an event carrying the new and old value and the component that made it, and none when the value did not change. "
  "With a filter it is told exactly when the filter's outcome flips and whether it now holds.",
  ["histories", "inputs"], "all sequences of values (types, repeats, oscillations) x filters x several subscribers",
  "Tests drive one monotonic counter with one filter.",
  ["src/rbus/rbus_valuechange.c", "src/rbus/rbus.c", "src/rbus/rbus_filter.c"], [("polling thread", "src/rbus/rbus_valuechange.c"), ("filter transitions on publish", "src/rbus/rbus.c")],
  ["value-change event callbacks"])
p("B10", "Saved subscriptions survive a provider restart",
  "When a provider process exits or is killed at any point and starts again under the same component name, every subscription that existed and whose subscriber still lives keeps receiving events without subscribing again, exactly once per event, and subscriptions that were cancelled or whose subscriber died do not come back. "
  "A damaged or stale saved file never prevents the provider from starting and serving.",
  ["histories", "crash_points", "fault_sequences"], "all histories of subscriptions with filters, intervals and patterns x kill/exit/restart points x damaged saved files",
  "Tests restart one provider once with one plain subscription.",
  ["src/rbus/rbus_subscriptions.c", "src/rbus/rbus.c"], [("subscription cache file", "src/rbus/rbus_subscriptions.c")],
  ["event callbacks after restart", "saved file contents through restart"])
p("B11", "Methods receive the given arguments and return the provider's results",
  "A method call, synchronous or asynchronous, hands the provider exactly the arguments given and returns exactly the results and status the provider produced, whether answered within the handler or later from another thread, and an asynchronous caller's callback runs exactly once per call. "
  "Calls to unknown names, to elements that are not methods, or to a failing provider report an error.",
  ["inputs", "histories", "schedules"], "all argument/result objects, outcomes, answer orders and concurrent calls",
  "Tests call a few methods with fixed arguments, one at a time.",
  ["src/rbus/rbus.c", "src/core/rbuscore.c"], [("method invocation and asynchronous answer", "src/rbus/rbus.c")],
  ["rbusMethod_Invoke/InvokeAsync/SendAsyncResponse"])
p("B12", "A client's death or departure leaves no trace in others",
  "When a process closes or dies at any moment, others see only its own names and subscriptions disappear: pending calls to it end with an error, its names become free, providers drop its subscriptions, and all remaining components keep serving each other correctly.",
  ["crash_points", "histories"], "all points at which a client is killed or closes within a running multi-process history",
  "Tests never kill a process in the middle of operations.",
  ["src/rtmessage/rtrouted.c", "src/rtmessage/rtRoutingTree.c", "src/core/rbuscore.c", "src/rbus/rbus_subscriptions.c"],
  [("client clean-up in the broker", "src/rtmessage/rtrouted.c"), ("disconnect advisory", "src/core/rbuscore.c")],
  ["requests between surviving processes", "provider's list of subscriptions"])
p("B13", "Every call gets its own answer, under concurrency, delay and timeout",
  "With any number of threads and processes calling concurrently, each call returns the answer to its own request, or a timeout no earlier than its limit and not long after it; an answer that arrives late is dropped and never delivered to another call, and later calls on the same handle work normally.",
  ["schedules", "inputs", "histories"], "all mixes of concurrent gets, sets and methods with random provider delays around the time limits",
  "Tests issue calls one at a time against a fast provider.",
  ["src/rtmessage/rtConnection.c", "src/core/rbuscore.c", "src/rtmessage/rtSemaphore.c"], [("pending request list and sequence numbers", "src/rtmessage/rtConnection.c")],
  ["return values and payloads of concurrent calls"])
p("B14", "Asynchronous and retried subscriptions complete exactly once",
  "A subscription request made before its provider exists is retried until it succeeds, is refused or its time runs out, and the caller's completion callback is told the true outcome exactly once; after success events flow, after cancellation, failure or closing neither the callback nor events arrive.",
  ["histories", "schedules"], "all orders of request, provider start, refusal, cancellation and close",
  "Tests start the provider at one fixed delay.",
  ["src/rbus/rbus_asyncsubscribe.c", "src/rbus/rbus.c"], [("retry thread", "src/rbus/rbus_asyncsubscribe.c")],
  ["rbusEvent_SubscribeAsync/SubscribeExAsync callbacks"])
p("B15", "Interval subscriptions tick with current values until their duration ends",
  "A subscription with an interval gets events at that period carrying the parameters' current values, never faster, for as long as its duration allows, then a single end-of-duration event and nothing more; unsubscribing or closing stops it, and other subscriptions to the same element with other periods are unaffected.",
  ["histories", "inputs"], "all mixes of intervals, durations, patterns, subscribers and unsubscribe points",
  "Tests run one interval subscription at a time.",
  ["src/rbus/rbus_intervalsubscription.c", "src/rbus/rbus_subscriptions.c"], [("interval threads", "src/rbus/rbus_intervalsubscription.c")],
  ["interval event callbacks"])
p("B16", "Direct connections are indistinguishable from routed ones",
  "Opening a direct connection to an element's provider changes neither results nor events of gets, sets, methods and subscriptions for that element or any other, during its life, after it is closed, and after either side dies.",
  ["histories", "crash_points"], "all interleavings of open/close direct with gets, sets, events and exits",
  "Tests open one direct connection and read a value.",
  ["src/core/rbuscore.c", "src/rtmessage/rtrouteBase.c", "src/rbus/rbus.c"], [("private client/server lists", "src/core/rbuscore.c"), ("direct listener", "src/rtmessage/rtrouteBase.c")],
  ["rbus_openDirect/closeDirect and ordinary calls"])
p("B17", "The broker survives any client input and keeps serving others",
  "Whatever byte stream a client sends to the broker - malformed or truncated frames, odd lengths, hostile control messages, sudden close at any byte - the broker neither crashes nor corrupts memory nor stalls, and well-behaved clients keep getting correct service.",
  ["inputs", "fault_sequences"], "all byte streams, split at any boundaries, from several clients that keep reading what they are sent",
  "No test sends anything but well-formed frames.",
  ["src/rtmessage/rtrouted.c", "src/rtmessage/rtMessageHeader.c", "src/rtmessage/rtRoutingTree.c"], [("frame reassembly", "src/rtmessage/rtrouted.c"), ("header decoding", "src/rtmessage/rtMessageHeader.c")],
  ["broker process state", "requests between other clients"])
p("B18", "Topic messages go to exactly the listeners of the topic, whole and in order",
  "On the messaging layer every message and every request, of any size and kind, published to a topic is received by exactly the connected listeners registered for it, unmodified, once, and in the sender's order; a request is answered to its own caller with the response sent, and a request nobody listens to fails promptly.",
  ["histories", "inputs"], "all histories of add/remove listener and alias, send, request and disconnect over several connections, and all payload sizes",
  "Tests send small messages between two fixed endpoints.",
  ["src/rtmessage/rtConnection.c", "src/rtmessage/rtrouted.c", "src/rtmessage/rtRoutingTree.c"], [("listener table", "src/rtmessage/rtConnection.c"), ("routing", "src/rtmessage/rtrouted.c")],
  ["rtConnection_* API"])
p("B19", "At most one session is active and every client sees the same one",
  "A session can be created only when none is active; until it is ended with its own number every client that asks is told that same number, ending with any other number or twice is refused, and after ending a new one can be created.",
  ["histories"], "all interleavings of create/query/end by several clients with right and wrong numbers",
  "Tests create and close one session.",
  ["src/session_manager/session_manager.c", "src/rbus/rbus.c"], [("session state", "src/session_manager/session_manager.c")],
  ["rbus_createSession/getCurrentSession/closeSession"])
p("B20", "After the broker restarts, components and subscriptions work again",
  "When the broker is killed and restarted at any moment, clients reconnect by themselves, and component-level names registered before are reachable again, calls issued meanwhile either succeed or report an error, and no client hangs or crashes.",
  ["crash_points", "fault_sequences"], "all points of broker death within a running history and all down times",
  "No test restarts the broker.",
  ["src/rtmessage/rtConnection.c"], [("reconnect and re-register listeners", "src/rtmessage/rtConnection.c")],
  ["requests after broker restart"])
p("B21", "Handles open, close and misuse cleanly in any order",
  "Any order of opening, using and closing any number of handles in one process, including invalid arguments and closed handles, yields the documented errors, never affects other handles, and leaves the process able to open and use new handles; closing everything releases everything.",
  ["histories", "inputs"], "all sequences of open/close/use with several handles and invalid arguments",
  "Tests open and close one or two handles in fixed orders.",
  ["src/rbus/rbus.c", "src/rbus/rbus_handle.c", "src/core/rbuscore.c"], [("handle list", "src/rbus/rbus_handle.c"), ("connection life time", "src/core/rbuscore.c")],
  ["rbus_open/rbus_close and all API entry points"])
p("B22", "The command line tool does what its commands say and shows what the bus answered",
  "Every rbuscli command, typed or given as arguments, causes exactly the call it names with the names, types and values as typed (also quoted ones), prints the complete result or error of that call, reports every event of its subscriptions, and refuses wrong, incomplete or oversized commands with a message and no other effect.",
  ["inputs", "histories"], "all command lines and all sequences of them, against all states of the bus",
  "The tool has no tests and is not even built by the test build.",
  ["utils/rbuscli/rbuscli.c"], [("command dispatch and splitting of lines", "utils/rbuscli/rbuscli.c"), ("every command's call and printing", "utils/rbuscli/rbuscli.c")],
  ["rbuscli commands and output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
