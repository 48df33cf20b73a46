claim("P01", "all of PricedIdTracker and merge_priced_topics under contract, every obligation discharged for all inputs and histories (class invariant); integer costs")
NA["P32"] = "a liveness property (eventual convergence over all fair schedules): the contracts used here express partial correctness only, no contract within reach states or decides it"
NA["P33"] = "the behaviour is that of the FFmpeg/PyAV native libraries behind opaque calls; no contract on code in /repo can express or decide it"
claim("P02", "Link.send/recv/_process_recv_message/close/get_priced_* under contract, every obligation discharged for all messages, tables and link costs; sequential per link (recv and send each atomic up to the transport call)")
claim("P03", "Switch.handle_message/on_stream_message/send_to/on_in_topics_changed under contract with arbitrarily many links in arbitrary state, other tasks changing them at every suspension")
claim("P04", "Switch.on_addressed_message under contract against the links' recorded prices; the invariant behind it (the tracker counts exactly the offers of the connected links) is kept by announcements, joins and removals, each proved for all link sets and tables; histories of events whose table updates are atomic (which is proved: nothing is sent before)")
claim("P05", "IdTracker, Switch.request_in_topics_change/on_in_topics_changed/on_out_topics_changed/remove_link/add_link under contract: the demand invariant (only wanted topics are asked for, each from one cheapest provider) is kept by every event, for all tables and any number of links; handlers of different links taken one at a time")
claim("P06", "TopicRemappingLink.__init__/_send/_recv/_remap_message under contract for every kind of message, mapping and content")
claim("P07", "serialize_message/deserialize_message, as_dict/from_dict of every message kind and all of RawData except shallow_copy under contract, for all contents; msgpack itself by its assumed contract")
claim("P08", "endpoint_to_str, str_to_endpoint and validate_address_name under contract for all texts and endpoints (theory of strings)")
claim("P09", "Client.register_*/unregister_*/set_address/enable_receiver/disable_receiver/_task_receive and IdTracker.add_many/remove_many under contract (the receive loop by its per-message event rule)")
claim("P10", "DiscoveryWorker.generate_topic_ids/generate_addresses and its registered allocation and topic-space handlers, IdGenerator and Client.get_free_port under contract; handlers are extracted by running the registering function up to the server's run()")
claim("P11", "the discovery service's register/resolve/unregister handlers, Client.set_address_name/resolve_address_name, address_name_context and the constants under contract")
claim("P12", "FetchServer/SignalServer on_message, run and routes, FetchRequest.respond*, FetchReponseReceiver.on_message, Client.fetch and send_signal under contract (server loops by their per-request event rule, handlers arbitrary callables)")
claim("P13", "wait_for/_is_waiting/set_paused/start_receive of both synchronizers from any state with arbitrary interference at every suspension, _SynchronizedInTopicReceiver.get and InTopic.recv_data_control under contract")
claim("P14", "RawStreamConnection._send/_recv/send/recv over an arbitrary input stream (marker search by loop invariant, unbounded), the websocket variants and RawConnectionLink._send/_recv under contract")
claim("P15", "RawConnection.init_server/init_client for both transports against an arbitrary peer, StreamServerBase/WebsocketServer.on_connection and RawConnectionLink.__init__ under contract")
claim("P16", "extract_connection_data_from_url, connect and create_server against the parts of an arbitrary URL; urllib's splitting is assumed")
claim("P17", "both value codecs by structural induction, event sender and receiver, opening of a connection and both directions of the bridge")
claim("P22", "save, load, entries, update and the constructor of the store over a modelled disk that may stop after any effect")
claim("P21", "every fetch and web route of the named topic and secret managers and the secret client against a map, with arbitrary interference where a request waits")
claim("P31", "reading and rewriting timestamps of any message payload, through RawData's own methods")
claim("P29", "conversion to and from codec packets and the time accessors, for all times and time bases")
claim("P23", "every operation of the buffer against a list, for buffers of any length and content, over a modelled database")
claim("P30", "get, put and close of consumers and every method of the coroutine and the thread producer, with arbitrary interference wherever they wait, and the trigger they use")
claim("P25", "Every operator's transformer method, found through the grammar taken from the module, is proved to compute its meaning for all operands; functions, variables and literals likewise; the task's receive loop is proved for an arbitrary iteration. Precedence and the parse tree are Lark's: bounded.")
claim("P24", "One iteration of every receive loop of the five tasks, found by executing run(), is proved for an arbitrary state and an arbitrary message or pause.")
claim("P20", "Every operation of the store, and the web requests that reach it, are proved from an arbitrary state: exactly the named entry changes, ids stay unique, running deployments and their tasks are refused.")
claim("P19", "Every request and report handler of the task manager and of a task host is proved from an arbitrary table, with other handlers running wherever it waits; running a task and stopping a host likewise. The clients' receivers are covered by histories on a real network: bounded.")
claim("P18", "Matching, substituting (for patterns of any length), every kind of route, the chain of handlers and registering are proved, and that a served file lies inside the directory for an arbitrary file system. Taking a pattern's text apart is checked by random patterns: bounded.")
claim("P26", "Both chunkers are proved over an arbitrary stream for any chunk size, rate and padding: the chunks are its samples in order, complete, each with the timestamp of its first sample. numpy's slicing and joining are contracts.")
claim("P27", "Inserting, taking, resetting and reporting are proved for an arbitrary buffer, start time, rate and ratio. numpy is a contract; the stretching itself is checked by random buffers: bounded.")
claim("P28", "The C++ function is translated on every run from clang's typed syntax tree of the current file; all accesses in bounds, no overflow, and every byte of the result are proved for any number of images and any sizes. std::vector, std::string and pybind11's bytes are contracts.")
