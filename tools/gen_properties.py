"""Single source for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
  assert len(title) <= 80, (id, len(title))
  P.append({"id": id, "title": title, "statement": statement,
    "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
    "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
      "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
      "observe_at": list(observe), "hook_needed": None}})

N = "streamtasks/net/__init__.py"
prop("P01", "Routing costs always equal the cheapest registered route",
  "After any history of routes (id, cost) being registered and withdrawn, an id is known exactly while at least one of its routes is still registered, and its advertised cost is the minimum over those routes. Every registration or withdrawal reports exactly the ids that became reachable, unreachable or changed their best cost, so an observer that applies only the reported changes has the same table.",
  ["histories", "inputs"], "every finite history of add/remove/change batches over arbitrary ids and costs, including the same id at several costs in one batch, duplicate registrations and unknown withdrawals",
  "The unit tests run a handful of fixed link topologies with one cost per id; they never reach several costs for one id in one batch or interleaved duplicates.",
  ["streamtasks/net/helpers.py"], [("per-id cost multiset", "streamtasks/net/helpers.py:PricedIdTracker.add_many/remove_many/change_many"), ("best price per id", "streamtasks/net/helpers.py:merge_priced_topics")],
  [("_map", "id -> cost -> number of registrations", "PricedIdTracker"), ("_computed_map", "id -> best cost", "PricedIdTracker")], ["items()", "get()", "__contains__", "return values"])
prop("P02", "A link's view equals the announcements that crossed it",
  "At any moment the subscriptions, provided topics and addresses recorded for a link are exactly the result of applying, in order, every announcement that crossed it, each offered route being recorded and handed on with the link's own cost added. A repeated announcement of an already known topic or address replaces the previous price, and every withdrawal or replacement handed on names the price that had been handed on before; subscription changes that change nothing are not handed on, and a closed link sends and delivers nothing.",
  ["histories", "inputs"], "every sequence of announcements with arbitrary id sets and prices in either direction on one link",
  "Tests exercise single announcements on two or three links; re-announcements at another price and overlapping add/remove sets are never sent.",
  [N], [("receive-side bookkeeping", N + ":Link._process_recv_message"), ("send-side bookkeeping", N + ":Link.send"), ("close once", N + ":Link.close")],
  [("in_topics/recv_topics", "topics the peer wants / topics requested from the peer", "Link"), ("out_topics/addresses", "id -> price through this link", "Link")], ["Link.recv()", "Link._send", "get_priced_out_topics", "get_priced_addresses"])
prop("P03", "Stream messages reach exactly the subscribed links, never the sender",
  "A data or control message arriving at a switch on a topic is forwarded exactly once to every other connected link that currently wants that topic, and to no other link; it is never sent back to the link it came from. The latest control state of a topic is handed to every link that newly subscribes to it. A link that is broken or closes while messages are being delivered does not keep any other link from receiving them, nor get the sender disconnected.",
  ["histories", "inputs", "fault_sequences", "schedules"], "any number of links, any subscription state, any link failing at any send, links joining or leaving while a send is suspended",
  "Tests use two or three healthy in-memory links; no test closes a link while a broadcast is being delivered.",
  [N], [("stream fan-out", N + ":Switch.on_stream_message/handle_message/send_to"), ("control replay", N + ":Switch.on_in_topics_changed")],
  [("stream_controls", "last control message per topic", "Switch")], ["messages passed to Link.send"])
prop("P04", "Addressed messages take a cheapest known route",
  "An addressed message is sent over exactly one link, one whose recorded price for that address is the lowest price known to the switch, and is dropped when no connected link offers the address. No other link receives it and the message is passed on unchanged. A link that has closed on the way does not get the sender disconnected.",
  ["inputs", "histories"], "every set of links and address prices, including equal prices and addresses known through no link",
  "The tests only have one route per address.",
  [N], [("address routing", N + ":Switch.on_addressed_message")], [("addresses", "best price per address", "Switch")], ["messages passed to Link.send"])
prop("P05", "Upstream subscriptions follow downstream demand",
  "A switch asks a provider for a topic when the first link starts wanting it and cancels the request when the last link that wanted it stops or disconnects; it requests each topic from a cheapest provider and never changes requests for other topics. Route changes are announced to every other link so that they always match the switch's current best prices.",
  ["histories", "inputs", "fault_sequences"], "every sequence of subscription changes, provider announcements and disconnects over any number of links",
  "Tests subscribe once and unsubscribe once; disconnecting a subscriber, two subscribers, or a provider that withdraws while another offers the topic are not tested.",
  [N, "streamtasks/utils.py"], [("demand counting", "streamtasks/utils.py:IdTracker; " + N + ":Switch.on_in_topics_changed, Switch.remove_link"), ("provider choice", N + ":Switch.request_in_topics_change"), ("announcements", N + ":Switch.add_link/on_out_topics_changed/on_addresses_changed")],
  [("in_topics", "topic -> number of links wanting it", "Switch")], ["messages passed to Link.send"])
prop("P06", "Topic remapping is an exact two-way translation",
  "Through a remapping link every outgoing topic id is translated by the given mapping and every incoming one by its inverse, in every kind of topic message and in announcements and withdrawals alike, ids outside the mapping passing unchanged. Payloads, prices, addresses and all other message content are left untouched, so translating there and back gives the original message.",
  ["inputs"], "every injective mapping and every message whose ids do not collide with the image of the mapping",
  "One test maps one topic in one direction.",
  [N], [("remapping", N + ":TopicRemappingLink._remap_message")], [("topic maps", "internal->external and its inverse", "TopicRemappingLink")], ["Link.send/recv of the wrapped link"])
prop("P07", "Network messages survive encoding unchanged",
  "Encoding any network message and decoding the bytes yields a message of the same kind with equal content, whatever ids, prices, flags, sets and payload it carries. A payload's decoded content and its encoded bytes always describe the same value, also after it was modified and marked as updated, and a copy of a payload is independent of the original: changing one never changes the other.",
  ["inputs", "histories"], "every message of the six kinds with arbitrary field values; every sequence of reading, modifying, copying and encoding a payload",
  "Tests serialise a few fixed messages.",
  ["streamtasks/net/serialization.py", "streamtasks/net/messages.py", "streamtasks/message/utils.py"], [("codec", "streamtasks/net/serialization.py:serialize_message/deserialize_message"), ("field codecs", "streamtasks/net/messages.py:as_dict/from_dict"), ("lazy payload", "streamtasks/net/serialization.py:RawData")],
  [("_data/_raw", "decoded / encoded form of a payload", "RawData")], ["deserialize_message(serialize_message(m))", "RawData.data / serialize()"])
prop("P08", "Endpoint text and endpoints convert back and forth exactly",
  "Writing an endpoint (a numeric address or a valid address name, plus a port) as text and parsing that text yields the same endpoint, and names that could not be read back (containing a colon or starting with a digit) are refused. Text that is not exactly one address and one integer port is rejected.",
  ["inputs"], "every non-negative numeric address, every string as a name, every port",
  "No test covers it.",
  ["streamtasks/net/utils.py"], [("format/parse", "streamtasks/net/utils.py:endpoint_to_str/str_to_endpoint/validate_address_name")], [], ["return values"])
prop("P09", "Clients announce a topic only on first use and last release",
  "A client announces providing or wanting a topic exactly when its number of users goes from zero to one and withdraws it exactly when it goes from one to zero, however registrations overlap. A received topic message is passed to every active receiver if some user of the client wants the topic and to none otherwise. Setting the client's address announces exactly the difference between the old and the new address.",
  ["histories", "inputs"], "every sequence of overlapping register/unregister calls on arbitrary topic sets and of address changes",
  "Tests register each topic once.",
  ["streamtasks/client/__init__.py", "streamtasks/utils.py"], [("reference counts", "streamtasks/utils.py:IdTracker"), ("transitions", "streamtasks/client/__init__.py:Client.register_*/unregister_*/set_address/_task_receive")],
  [("_in_topics/_out_topics", "topic -> users", "Client")], ["messages passed to Link.send", "Receiver.on_message"])
prop("P10", "Allocated ids are never handed out twice",
  "Topic ids and addresses given out by the discovery service are all distinct for as long as it runs, are exactly as many as requested, and never collide with the reserved ones, however requests interleave. Every topic space gets its own id and maps each of its topics to a fresh topic id of its own, and dynamic ports are not reused before the whole range has been used.",
  ["histories", "inputs"], "every sequence of allocation requests with arbitrary counts, including zero and negative ones",
  "Tests request ids once or twice with small positive counts.",
  ["streamtasks/services/discovery.py", "streamtasks/services/constants.py", "streamtasks/utils.py"], [("counters", "streamtasks/services/discovery.py:generate_topic_ids/generate_addresses"), ("topic spaces", "streamtasks/services/discovery.py:_run_fetch_server"), ("ports", "streamtasks/utils.py:IdGenerator")],
  [("_topics_counter/_address_counter/_topic_space_id_counter", "next id", "DiscoveryWorker")], ["allocation responses"])
prop("P11", "Names resolve to the latest registration",
  "Resolving an address name yields the address most recently registered for it, or nothing once it was unregistered, and operations on one name never affect another; a client stops resolving a name locally once its own registration of it has ended. The built-in services have pairwise distinct names, fixed addresses, topics and ports.",
  ["histories", "inputs"], "every sequence of register, resolve and unregister on arbitrary names",
  "Tests register one name and resolve it.",
  ["streamtasks/services/discovery.py", "streamtasks/services/constants.py", "streamtasks/client/discovery.py", "streamtasks/client/__init__.py"], [("name table", "streamtasks/services/discovery.py:_run_fetch_server/_run_signal_server"), ("client cache", "streamtasks/client/__init__.py:resolve_address_name/set_address_name; streamtasks/client/discovery.py:address_name_context")],
  [("_address_map", "name -> address", "DiscoveryWorker")], ["resolve responses", "Client.resolve_address_name"])
prop("P12", "Every request is answered once, to its requester, by the right handler",
  "A request arriving at a server is handled by the handler registered for its descriptor on that port, and its requester receives exactly one answer: the handler's response, an empty response if the handler gave none, or an error answer if it failed before responding; a failing handler never stops the server. A requester takes only an answer sent to its own return port, returns its content, and raises when the answer is an error; signals reach exactly the handler of their descriptor.",
  ["inputs", "histories", "fault_sequences"], "every descriptor table, request, handler outcome and interleaving of answers to several outstanding requests",
  "Tests perform one fetch and one signal against a healthy handler.",
  ["streamtasks/client/fetch.py", "streamtasks/client/signal.py", "streamtasks/client/__init__.py"], [("dispatch", "streamtasks/client/fetch.py:FetchServer.on_message/run; streamtasks/client/signal.py:SignalServer"), ("request", "streamtasks/client/__init__.py:Client.fetch; streamtasks/client/fetch.py:FetchReponseReceiver")],
  [("_descriptor_mapping", "descriptor -> handler", "FetchServer/SignalServer")], ["messages sent by the client", "Client.fetch result"])
prop("P13", "Synchronised inputs are released in timestamp order",
  "Messages of synchronised topics are released only when no other active topic of the group is still at an earlier timestamp, and a message older than one already seen on its own topic since that was last resumed is dropped instead of released. A paused topic never holds back the others, and a resumed topic starts at the group's current position. With priorities, of messages with equal timestamps the higher-priority topic's message is released, and processed, first.",
  ["schedules", "histories", "inputs"], "every number of topics, timestamps, priorities, pause/resume points and interleavings of the waiting readers",
  "Tests feed two topics with one interleaving each; priorities are not tested.",
  ["streamtasks/client/topic.py"], [("release rule", "streamtasks/client/topic.py:SequentialInTopicSynchronizer.wait_for/set_paused/_is_waiting"), ("priority rule", "streamtasks/client/topic.py:PrioritizedSequentialInTopicSynchronizer")],
  [("_topic_timestamps", "active topic -> its latest timestamp", "SequentialInTopicSynchronizer")], ["completion order of wait_for", "recv_data order"])
prop("P14", "Stream connections deliver exactly the frames that were sent",
  "Any sequence of byte messages written to a stream connection is read back as the same sequence, whatever the bytes contain, including the framing marker and empty messages. If garbage precedes a frame, reading resumes at the first complete frame marker in the input and returns that frame's bytes.",
  ["inputs", "histories"], "every sequence of messages and every garbage prefix",
  "Tests send a few ordinary messages over a healthy socket.",
  ["streamtasks/connection.py"], [("framing", "streamtasks/connection.py:RawStreamConnection._send/_recv")], [], ["RawStreamConnection.send/recv"])
prop("P15", "Every incoming connection must pass version and authentication checks",
  "A server accepts a connection only if the client presented the server's version and, when the server has a secret, that same secret; this holds for every connection, not only the first, and the secret itself is never sent to a client. A rejected or malformed handshake closes the connection on both sides and adds no link; an accepted one adds exactly one link with the configured cost.",
  ["histories", "inputs", "configurations"], "every sequence of connection attempts with arbitrary handshake data against one server",
  "The authentication test makes a single connection attempt per server.",
  ["streamtasks/connection.py"], [("handshake", "streamtasks/connection.py:RawConnection.init_server/init_client"), ("link creation", "streamtasks/connection.py:StreamServerBase.on_connection")],
  [("handshake_data", "the server's own data, incl. its secret", "ServerBase")], ["bytes sent during the handshake", "Switch.add_link"])
prop("P16", "Connection URLs select the transport, target and cost they name",
  "A connection URL yields the transport of its scheme with the host, port or path it names, the credentials and single-valued query parameters as handshake data, and the (positive) cost given in the query or the transport's default. A bare name is the node of that name, any other scheme is rejected, and no URL selects a different transport than its scheme.",
  ["inputs", "configurations"], "every URL of the supported schemes with arbitrary query parameters, and every unsupported scheme",
  "Tests use three fixed URLs.",
  ["streamtasks/connection.py"], [("parsing", "streamtasks/connection.py:extract_connection_data_from_url"), ("transport choice", "streamtasks/connection.py:create_server/connect")], [], ["returned connection data / server"])
prop("P17", "Values crossing the ASGI bridge arrive unchanged",
  "Every ASGI event or scope made of text, bytes, numbers, booleans, nothing, lists and string-keyed mappings of these arrives on the other side of the bridge as an equal value, with bytes still bytes and text still text. Values that cannot be transported are dropped to nothing rather than altering their neighbours.",
  ["inputs"], "every nested value of the supported kinds, of any depth and size the wire format itself can carry (whole numbers of 64 bits, valid text, its nesting limit)",
  "The codec is only used indirectly, on a few HTTP events.",
  ["streamtasks/asgi.py"], [("value codec", "streamtasks/asgi.py:ValueTransformer and its JSON form")], [], ["encoded/decoded values"])
prop("P18", "A route handles a path only if the pattern spells it, and files stay inside",
  "A route handles a request only if substituting the extracted parameters into its pattern (written without trailing slashes) gives back exactly the request path, and a parameter spans several path segments only where the pattern allows it; requests no route accepts fall through to the next handler in registration order. Serving files from a directory never serves a file outside that directory, whatever path is requested.",
  ["inputs", "configurations"], "every pattern, parameter value and request path, including suffixes after a trailing literal and dot-dot segments",
  "Tests check a handful of matching paths and few non-matching ones.",
  ["streamtasks/asgiserver.py"], [("matching", "streamtasks/asgiserver.py:PathPattern.match/construct"), ("fall-through", "streamtasks/asgiserver.py:HTTPRoute/WebsocketRoute/TransportRoute/ASGINext"), ("containment", "streamtasks/asgiserver.py:static_files_handler")],
  [("parts/params", "literal pieces and parameters of a pattern", "PathPattern")], ["handler invoked, params, response"])
prop("P19", "The task manager's task table follows reports and requests",
  "A scheduled task is recorded under a fresh id with its host and space and is visible until it is reported as no longer running; each report updates and is announced for exactly the task it names. Starting hands the given configuration to the task's own host, and a failed start or an ended task leaves no entry behind; removing a host removes exactly that host and its tasks. A host reports every task it ran once, with how it ended, to whoever started it, and a stopping host stops its tasks and withdraws its registration.",
  ["histories", "inputs", "fault_sequences"], "every sequence of schedule, start, cancel, report and host (un)registration messages, including unknown ids",
  "Tests schedule, start and cancel one task on one host.",
  ["streamtasks/system/task.py"], [("task table", "streamtasks/system/task.py:TaskManager.run_fetch_api/run_signal_api"), ("task reports", "streamtasks/system/task.py:TaskHost.run_task")],
  [("tasks/task_hosts", "known task instances and hosts", "TaskManager")], ["fetch answers", "broadcasts"])
prop("P20", "Stored deployments, tasks and dashboards keep unique ids and running guards",
  "Creating, updating or deleting a deployment, task or dashboard changes exactly the entry with that id, so there is never more than one entry per id, and all other entries keep their content. While a deployment is running neither it nor any of its tasks can be changed or deleted: such a call fails and leaves the stored data unchanged.",
  ["histories", "inputs"], "every sequence of store operations and start/stop of deployments",
  "Tests create and delete single entries.",
  ["streamtasks/system/task_web.py", "streamtasks/pydanticdb.py"], [("store operations", "streamtasks/system/task_web.py:TaskWebBackendStore")],
  [("deployments/tasks/dashboards", "persisted entries", "TaskWebBackendStore"), ("running_deployments", "currently running", "TaskWebBackendStore")], ["store query results", "files on disk"])
prop("P21", "Named topics and secrets behave as maps, on every access path",
  "Storing under a name or id replaces exactly that entry, fetching returns the entry last stored or a not-found answer, and deleting removes exactly it; all other entries are unaffected. Resolving a named topic gives every caller the same topic id for one name and different ids for different names.",
  ["histories", "inputs", "schedules"], "every sequence of put/get/delete/resolve over arbitrary names and ids, including two resolves of one name in flight",
  "The managers have no tests of their own for misses or overlapping resolves.",
  ["streamtasks/system/named_topic_manager.py", "streamtasks/system/secret_manager.py"], [("named topics", "streamtasks/system/named_topic_manager.py:run_fetch_server"), ("secrets", "streamtasks/system/secret_manager.py:run_fetch_server")],
  [("db / topic_map", "stored entries / name -> topic id", "NamedTopicManager, SecretManager")], ["fetch answers"])
prop("P22", "Saving user data never loses it, even if interrupted",
  "If the process stops at any point while user data is being saved, the file on disk afterwards holds either the complete previous or the complete new data. After a completed save, loading gives back exactly the saved entries (whose values JSON can express), and entries handed out to callers never alias the stored ones.",
  ["crash_points", "inputs"], "every crash point between the file operations of a save, for any old and new content",
  "Tests cannot stop the process between two file operations.",
  ["streamtasks/pydanticdb.py"], [("save/load", "streamtasks/pydanticdb.py:PydanticDB.save/load/update/entries")],
  [("file", "JSON list of entries", "PydanticDB._filename")], ["file content after each file operation", "entries"])
prop("P23", "The on-disk message buffer behaves exactly like a list",
  "Appending, removing from either end or the middle, replacing, clearing, indexing and iterating the message buffer give the same results as on a list of the same messages. Every message comes out exactly as it went in, a message that cannot be stored leaves the buffer as it was, and storage is released once a message is removed and when the buffer is gone.",
  ["histories", "inputs"], "every sequence of buffer operations, including operations after clear and failing ones",
  "Tests append a few messages and pop them.",
  ["streamtasks/rawdatabuffer.py"], [("buffer", "streamtasks/rawdatabuffer.py:RawDataBuffer")],
  [("_index_map/_db", "key order / key -> bytes", "RawDataBuffer")], ["return values of the buffer"])
prop("P24", "Gate, latch, switch and detector tasks follow their logic at every message",
  "A gate forwards a message exactly when its control is on (above 0.5), its input is not paused and, in closed fail mode, its control is neither paused nor faulty. For every number an SR latch outputs set or reset when exactly one input is high, and otherwise its kept value. A switch forwards exactly the input whose control is the highest of those that are not paused (one of them on a tie). A string concatenator emits the collected text once whenever its control rises above 0.5, and starts over. A message detector signals 0 exactly while its input is paused, no message arrived within its time-out or, in closed fail mode, the last message had no valid timestamp. Messages a task can not read change nothing (but fault a gate's control) and never stop it.",
  ["histories", "inputs", "configurations"], "every sequence of data and pause messages on every input in every configuration",
  "Tests drive each task through one short scenario.",
  ["streamtasks/system/tasks/gate.py", "streamtasks/system/tasks/srlatch.py", "streamtasks/system/tasks/switch.py", "streamtasks/system/tasks/stringconcatenator.py", "streamtasks/system/tasks/messagedetector.py"],
  [("gate", "GateState.get_open, GateTask.run_*"), ("latch", "SRLatchTask.send/_run_receive"), ("switch", "SwitchTask._get_selected_index/set_value/_run_*"), ("concatenator", "StringConcatenatorTask.run_*"), ("detector", "MessageDetectorState.signal, MessageDetectorTask.run_main")],
  [], ["messages sent on the output topic"])
prop("P25", "Calculator formulas mean what they say",
  "A calculator formula evaluates to its usual arithmetic meaning for all input values: the four operations, power, modulo (with the sign of the divisor), negation and functions as in ordinary mathematics, comparisons yielding 1 or 0, and the logical operators treating values above 0.5 as true. Signs and ! bind tightest, then **, then * / %, then + -, then comparisons, then &, ^, | and last the conditional; operators of one level group from the left. Every number received recomputes the output from the latest values of all inputs (an input that paused counts with its default), and a faulty evaluation sends nothing and never stops the task.",
  ["inputs", "programs"], "every formula of the language and every assignment of input values",
  "Tests evaluate a few formulas; the logical operators and mixed precedences are not covered.",
  ["streamtasks/system/tasks/calculator.py"], [("operators", "streamtasks/system/tasks/calculator.py:CalculatorEvalTransformer"), ("grammar", "streamtasks/system/tasks/calculator.py:CalculatorGrammar")], [], ["values sent on the output topic"])
prop("P26", "Audio chunking neither loses, repeats nor reorders samples",
  "The chunks produced from a stream of audio buffers, followed by what is still buffered, are exactly the samples that came in, in order, and every chunk has the configured size (the padded variant repeating exactly the padding around each chunk). No more than one chunk's worth of samples stays buffered, and each chunk's timestamp is that of its first sample (behind the padding in front of it) to within rounding. Stripping the padding off a chunk leaves exactly its own samples.",
  ["histories", "inputs"], "every chunk size, padding, rate and sequence of buffer lengths, including empty and huge ones",
  "Tests use two or three buffer lengths.",
  ["streamtasks/media/util.py"], [("chunkers", "streamtasks/media/util.py:AudioChunker.next/PaddedAudioChunker.next")], [("buffer", "samples not yet emitted", "AudioChunker")], ["yielded (chunk, timestamp) pairs"])
prop("P27", "The audio sequencer returns exactly the requested time span",
  "Taking samples from the sequencer always returns exactly the requested number: each position holds the sample inserted for that time, or silence where none was inserted, and nothing raises whatever the requested time, also while nothing is held. Inserting never moves or drops a held sample unless stretching is allowed, places each sample at its own time to the nearest position, with silence in gaps, and drops of it only what overlaps samples already held; with stretching the buffer still ends where the inserted samples end. Afterwards the buffer starts right behind what was taken, so no sample is returned twice and none after the span is lost.",
  ["histories", "inputs"], "every buffer content, start time, requested time and count, including times before the buffer, after it, and an empty sequencer",
  "Tests insert and take a few aligned blocks.",
  ["streamtasks/media/util.py"], [("taking", "streamtasks/media/util.py:AudioSequencer.pop_start/get_max_samples"), ("inserting", "streamtasks/media/util.py:AudioSequencer.insert")], [("_sample_buffer/_buffer_start_time", "buffered samples and the time of the first", "AudioSequencer")], ["pop_start results"])
prop("P28", "Overlaying images blends every pixel correctly and stays in bounds",
  "Merging images gives for every colour byte the result of laying the images over an opaque black background in order, each weighted by its own alpha with integer rounding down, and an opaque alpha byte, with alpha first or last as asked. Only bytes inside the given images are ever read or written, whatever their sizes.",
  ["inputs"], "every number of images, every size (also differing sizes and sizes that are no multiple of a pixel) and every pixel value",
  "Tests blend two equally sized images.",
  ["streamtasks/media/video_perf_all.cpp"], [("blending", "streamtasks/media/video_perf_all.cpp:merge_images")], [], ["merge_images result"])
prop("P29", "Media packets keep their times across conversion",
  "Converting a codec packet to a media packet and back preserves data, key-frame flag, the presentation time and the offset of the decoding time from it; a change of time base rounds that time and that offset to a whole tick and keeps what is a whole tick already exactly. A decoding time of zero is a time like any other, and only a missing one counts as equal to the presentation time. Decoding time always stays presentation time minus the stored offset.",
  ["inputs"], "every presentation and decoding time, also zero and negative, and every pair of time bases",
  "Container tests use generated streams whose times happen to be benign.",
  ["streamtasks/media/packet.py"], [("conversion", "streamtasks/media/packet.py:MediaPacket.from_av_packet/to_av_packet/dts")], [("pts/rel_dts", "presentation time / offset of the decoding time", "MediaPacket")], ["fields of converted packets"])
prop("P30", "Consumers receive every message their producer sent, in order",
  "A consumer registered with a producer receives every message the producer sends that it accepts, once and in order, and learns of the end only after it received everything sent before the end. The shared producer runs while at least one user has entered it, is started once however many enter, and is stopped when the last one leaves; closing it twice or before it ran is harmless.",
  ["schedules", "histories"], "every interleaving of sends, reads, enters, exits and close",
  "Tests run one producer with one consumer and do not close with messages pending.",
  ["streamtasks/utils.py"], [("consumer queue", "streamtasks/utils.py:AsyncConsumer.get/put/close"), ("shared run", "streamtasks/utils.py:AsyncProducer.__aenter__/__aexit__/close")],
  [("_queue/_closed", "undelivered messages / ended", "AsyncConsumer"), ("_entered_count/_task", "users / running task", "AsyncProducer")], ["AsyncConsumer.get results"])
prop("P31", "Timestamps of messages are read and rewritten without touching anything else",
  "Reading a message's timestamp returns the number stored under it, cut to a whole one, and fails with ValueError for a message without one, including infinite and NaN values. Writing it changes only the timestamp and is what every later reader and every encoder of that message sees; a message without a timestamp entry is refused with ValueError and keeps its content.",
  ["inputs", "histories"], "every message content, with and without a usable timestamp, whether or not it was encoded or decoded before",
  "Tests use well-formed messages only.",
  ["streamtasks/message/utils.py", "streamtasks/net/serialization.py"], [("access", "streamtasks/message/utils.py:get_timestamp_from_message/set_timestamp_on_message")], [], ["return values; serialize() afterwards"])
prop("P32", "Scheduled work eventually runs and every node eventually learns every route",
  "Once the network stops changing, every node eventually knows the cheapest route to every topic and address, and every started task eventually produces a final report.",
  ["schedules", "histories"], "all fair schedules of the whole network",
  "Convergence over arbitrary topologies cannot be sampled.",
  [N, "streamtasks/system/task.py"], [("announcements", N + ":Switch")], [], ["eventual state of all switches"])
prop("P33", "Encoded media plays back in sync and without quality loss beyond the codec's",
  "Audio and video written to an output container play back in sync, in order and with the requested codec parameters, for every combination of codecs and formats.",
  ["configurations", "inputs"], "all codec, container and timing combinations",
  "Tests transcode a few seconds with a few codecs.",
  ["streamtasks/media/container.py", "streamtasks/media/video.py", "streamtasks/media/audio.py"], [("muxing", "streamtasks/media/container.py")], [], ["decoded output files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fd:
  for p in P: fd.write(json.dumps(p) + "\n")
print(len(P), "properties")
