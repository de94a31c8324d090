prop('C01', 'Messages are serialised canonically and without loss',
     'Any message with a legal type, name, optional numeric id and arbitrary byte-string arguments serialises to exactly one line holding no raw NUL, newline, return, escape, tab or blank inside an argument, and parsing that line gives back an equal message (type, name, id, every argument byte for byte). '
     'Booleans, numbers and text given as arguments travel as 1/0, decimal, repr and UTF-8 text; copies and replies/informs built from a request keep its name and id. '
     'Illegal types, names or ids are refused with KatcpSyntaxError when the message is built.',
     ['inputs'], 'all message types, names, ids and argument byte strings (any length, any bytes)',
     'The tests round-trip about ten hand-picked strings; the guarantee is over all byte strings, escape combinations and empty-argument positions.',
     ['katcp/core.py', 'katcp/compat.py'],
     [('escaping and serialisation', 'core.Message.__bytes__'), ('unescaping', 'core.MessageParser.parse')],
     'reference-model monitor on generated and enumerated messages',
     'Exhaustive over short special-character arguments, sampled beyond; oracle is an independent encoder/decoder.')
prop('C02', 'The parser is total and accepts exactly the KATCP line grammar',
     'For every byte string the parser either returns the message the KATCP grammar assigns to that line or raises KatcpSyntaxError; no other exception and no third outcome exists. '
     'Any accepted line re-serialises to the canonical line of the same message.',
     ['inputs'], 'all byte strings without restriction, including non-UTF-8, truncated and mutated lines',
     'Tests list a few dozen good and bad lines; wrong acceptance, wrong meaning or a foreign exception on any other line goes unseen.',
     ['katcp/core.py'],
     [('line grammar', 'core.MessageParser'), ('name/id syntax', 'core.MessageParser.NAME_RE')],
     'differential monitor against an independent reference parser on enumerated and mutated lines',
     'Exhaustive to 4 (5) symbols over a 17-symbol alphabet and fixed heads plus 3 (4) symbols; random beyond.')
prop('C03', 'KATCP types: unpack inverts pack, and invalid values are refused',
     'For every KATCP type and protocol major 4 and 5, packing a legal value gives its KATCP wire text and unpacking that text gives the value back (timestamps to microseconds in v5, milliseconds in v4), and a value that came off the wire is re-sent unchanged. '
     'Values outside the declared range/set and malformed wire text are refused with ValueError in both directions; a missing value yields the default, None if only optional, or ValueError. '
     'Sensor readings formatted by one sensor and parsed by another of the same type are equal.',
     ['inputs', 'configurations'], 'all types, ranges, values, wire strings, default/optional settings and both protocol majors',
     'Tests check a short table per type, mostly major 5; the inverse must hold over all values and majors.',
     ['katcp/kattypes.py', 'katcp/core.py'],
     [('type codecs', 'kattypes.KatcpType.pack / unpack and subclasses'), ('sensor formatting', 'core.Sensor.read_formatted / set_formatted')],
     'round-trip and reference-format monitors over generated typed values',
     'Sampled values plus boundary values per type; oracle is the KATCP textual format stated independently.')
prop('C04', 'Handler decorators enforce declared parameter and reply types',
     'A decorated handler runs only if the message arguments match its declared parameters (count, types, ranges; defaults for missing optional ones; a trailing multiple parameter takes any number), and then receives exactly the unpacked values; otherwise it does not run and the request fails with a text naming the offending parameter. '
     'A decorated return value becomes a reply of the request\'s name carrying ok and the packed values, or fail and the text, and a return value not matching the declared reply types is never sent. '
     'This holds for sync, future and coroutine handlers, either decorator order, and reply sending from callbacks.',
     ['inputs', 'programs'], 'all handler signatures, argument lists, return values and decorator orders',
     'Tests exercise a handful of fixed signatures; combinations of defaults, optional, multiple and bad positions are unbounded.',
     ['katcp/kattypes.py'],
     [('argument unpacking', 'kattypes.request / unpack_types'), ('reply packing', 'kattypes.return_reply / make_reply / pack_types')],
     'reference-model monitor over generated handler signatures and calls',
     'Random signatures over seven types; oracle is an independent model of the declared contract.')
prop('C05', 'Every request gets exactly one matching reply, on its own connection',
     'For every request a connected client sends, the server sends that client exactly one reply bearing the request\'s name and message id, whatever the handler does (returns, raises FailReply or any exception, resolves or fails a future later, replies asynchronously, is unknown, gets bad parameters), in every threading mode that supports that kind of handler. '
     'Informs belonging to a request carry its id, arrive before its reply and in the order sent. '
     'No client ever receives a reply or request-inform of another client\'s request.',
     ['inputs', 'schedules', 'histories', 'configurations'],
     'all request mixes, handler behaviours and completion orders, numbers of clients, and concurrency modes',
     'Tests drive one handler at a time with one client; interleavings of outstanding requests across clients and modes are unbounded.',
     ['katcp/server.py', 'katcp/kattypes.py', 'katcp/core.py'],
     [('request dispatch and reply guarantee', 'server.DeviceServerBase.handle_request'), ('handler thread hand-off', 'server.MessageHandlerThread'), ('per-request connection', 'server.ClientRequestConnection')],
     'history checker over recorded client-side wire traffic of concurrent hostile workloads',
     'Decided on the byte streams received by raw sockets after a barrier request; schedules are sampled with injected handler delays.')
prop('C06', 'Requests on one connection are handled once each, in order',
     'However a client\'s byte stream is cut into TCP segments and whatever line endings and blank lines it uses, each well-formed request line is handled exactly once, in the order sent. '
     'Handlers that are not declared concurrent never overlap on one connection and their replies come in request order; concurrent and asynchronous handlers let later requests proceed, and a slow asynchronous request of one client does not delay another client. ',
     ['inputs', 'schedules', 'histories'], 'all segmentations, pipelining depths, handler mixes and client counts',
     'Tests send one message per write and wait; segment boundaries, pipelining and interleaving of handler kinds are not explored.',
     ['katcp/server.py'],
     [('line reader', 'server.KATCPServer._line_read_loop'), ('serialisation by future', 'server.DeviceServerBase.handle_message')],
     'trace checker on handler enter/exit events and client streams under hostile segmentation',
     'Segmentations and schedules are sampled (seeded); every oracle is an ordering over recorded events, not wall-clock.')
prop('C07', 'Hostile or broken clients never take the server down',
     'Whatever bytes a client sends (malformed lines, arbitrary binary, oversized lines, invalid UTF-8 arguments to any request) and however it disconnects or stops reading, the server keeps answering every other client, and keeps answering that client too unless its line exceeded the size limit or it was closed. '
     'A malformed line is answered by an error log inform to that client only and no reply, the next well-formed request is handled normally, and a line is never processed twice. '
     'A connection whose peer does not read is closed once its unsent output exceeds the write-buffer limit, without blocking others.',
     ['inputs', 'fault_sequences', 'schedules'], 'all byte streams, disconnect points and stalled readers',
     'Tests send two malformed lines; robustness must hold for all bytes and all disconnect timings.',
     ['katcp/server.py', 'katcp/core.py'],
     [('read loop error handling', 'server.KATCPServer._line_read_loop'), ('write limits', 'server.KATCPServer.send_message')],
     'fault-injecting workload with liveness probes and stream oracles on raw sockets',
     'Sampled byte streams and fault points; liveness judged by barrier requests on fresh and existing connections.')
prop('C08', 'Every client request is resolved exactly once with its own reply',
     'Each request made through a client resolves exactly once: with the reply the server sent for it together with exactly its informs in order, or with a failure on timeout, send failure, disconnection or stop - regardless of reply order, duplicate or late replies, same-named requests outstanding, or missing message ids. '
     'A reply or inform for one request never resolves or leaks into another, late replies to requests with ids are ignored, requests without ids are matched by name in order, and after disconnection or stop nothing stays pending. ',
     ['inputs', 'schedules', 'fault_sequences', 'histories'],
     'all interleavings of replies, informs, timeouts, disconnects and stop over any set of outstanding requests',
     'Tests use a co-operating server and one outstanding request; reorderings, duplicates, lost replies and races with timeouts are unbounded.',
     ['katcp/client.py'],
     [('request stack', 'client.AsyncClient._push_async_request / _pop_async_request'), ('reply routing', 'client.AsyncClient.handle_reply / handle_inform'), ('timeouts', 'client.AsyncClient._handle_timeout')],
     'exactly-once / matching history checker against a scripted adversarial server on a virtual-time event loop',
     'Interleavings generated from a seed on a deterministic loop with virtual time; server behaviour is scripted over a real socket.')
prop('C09', 'A client tracks its connection and reconnects by itself',
     'A client with auto-reconnect re-establishes the connection after any sequence of server outages, refused attempts and protocol announcements, and sends again once the server is back; with auto-reconnect off it does not. '
     'Connection notifications alternate strictly between connected and disconnected and agree with the reported state, and the protocol-ready event is never set before the server\'s version announcement (or a preset) of the present run; an announcement that contradicts the detected version ends the connection for good. '
     'Sending while disconnected fails at once and nothing sent on an old connection is delivered on a new one.',
     ['fault_sequences', 'histories', 'schedules'], 'all sequences of server up/down, reset, half-close and announcement content',
     'Tests cover one disconnect; sequences of outages at arbitrary points are unbounded.',
     ['katcp/client.py'],
     [('connect loop', 'client.DeviceClient._connect_loop'), ('version announcements', 'client.DeviceClient.preset_protocol_flags / inform_version_connect')],
     'online state-machine monitor under injected outages on a virtual-time event loop',
     'Sampled outage sequences; reconnect delays are decided in virtual time.')
prop('C10', 'Sensor sampling strategies deliver exactly the updates they promise',
     'For any history of sensor updates, a sampling strategy reports as specified: auto every update; event every change of value or status; differential the first reading and each change of status or of value by more than the threshold since the last report; period the current reading every period; event-rate and differential-rate the corresponding event updates no closer than the shortest period and at least once per longest period. '
     'The last change is never lost: once updates stop, the last report equals what the strategy promises for the final reading. '
     'Reported readings are readings the sensor had, in order, formatted for the client\'s protocol version. A cancelled strategy reports nothing more and leaves no timers behind; one that fell behind catches up without a burst of reports.',
     ['histories', 'inputs', 'schedules'], 'all update histories (values, statuses, times), thresholds, periods and sensor types',
     'Tests replay a few fixed update sequences; coincidences of updates with timer edges and sub-period bursts are unbounded.',
     ['katcp/sampling.py'],
     [('strategies', 'sampling.SampleStrategy subclasses'), ('rate limiting', 'sampling.SampleEventRate')],
     'trace-specification monitor on a virtual-time event loop with generated update histories',
     'Deterministic virtual time; histories sampled with bias to coincident times and boundary thresholds.')
prop('C11', 'Sampling requests take effect atomically and end when told to',
     'A sampling request either fails and leaves the client\'s current strategy working, or succeeds, reports the strategy and parameters now in force, and its first report reaches the client after/around the reply; querying returns the strategy in force. '
     'After strategy none, ?sensor-sampling-clear, client disconnection or sensor removal has completed, that client gets no further report for the sensor and the sensor keeps no observer for it; other clients and sensors are unaffected. '
     'Illegal strategies, parameters (wrong count, not positive or not finite), or unknown sensors are refused; a bulk request with any bad member changes nothing.',
     ['histories', 'inputs', 'schedules'], 'all sequences of sampling requests, sensor updates, disconnects and removals by several clients',
     'Tests set one strategy on one sensor; replacement races, bulk failure and leak-freedom over histories are unsampled.',
     ['katcp/server.py', 'katcp/sampling.py'],
     [('sampling requests', 'server.DeviceServer.request_sensor_sampling / _clear'), ('strategy life cycle', 'sampling.SampleStrategy.start / cancel')],
     'stateful model-based history checker with quiescence barriers and observer-leak probes',
     'Random histories over several raw clients; reports are attributed by unique sensor values.')
prop('C12', 'Built-in requests report exactly the current device state',
     '?sensor-list, ?sensor-value, ?help, ?client-list and ?version-list return precisely the items that exist and match the filter (all, exact name, /regular expression/), each once, in informs whose number equals the count in the reply; an unknown exact name or malformed filter fails. '
     'A reading reported for a sensor is one complete reading (timestamp, status, value) that the sensor had while the request was being served, never a mixture, even with concurrent updates from other threads.',
     ['inputs', 'histories', 'schedules'], 'all sensor/request populations, filters, protocol majors and concurrent update schedules',
     'Tests check fixed sensors and names; filters over arbitrary populations and torn readings under concurrency are not reachable.',
     ['katcp/server.py', 'katcp/core.py'],
     [('queries', 'server.DeviceServer.request_sensor_list / request_sensor_value / request_help / request_client_list'), ('atomic reading', 'core.Sensor.set / read')],
     'model comparison of query results plus torn-read monitor under multi-threaded updates',
     'Sampled populations and filters; concurrency sampled under real threads with unique readings.')
prop('C13', 'Clients are greeted, listed, broadcast to and told about shutdown',
     'Each new connection first receives the version announcements of the server\'s protocol version before anything else. '
     'The server\'s view of connected clients (client list, broadcast recipients, connect and disconnect hooks) equals the set of connections actually open at any quiescent point; a mass inform reaches each connected client exactly once and in order, also when sent from another thread. '
     'On shutdown or restart request every connected client gets a disconnect inform before its connection closes.',
     ['histories', 'schedules', 'configurations'], 'all connect/disconnect/broadcast/shutdown histories, both protocol majors, both threading modes',
     'Tests use one or two clients and fixed order; histories with churn are unbounded.',
     ['katcp/server.py'],
     [('connection hooks', 'server.DeviceServer.on_client_connect / on_client_disconnect'), ('broadcast', 'server.DeviceServerBase.mass_inform'), ('shutdown', 'server.KATCPServer._uninstall')],
     'model-based history checker over many raw connections',
     'Sampled churn histories; set equality decided at barriers.')
prop('C14', 'An inspecting client mirrors the device interface exactly',
     'After each synchronisation the inspecting client\'s set of sensors and requests, with descriptions, units, types, parameters and timeout hints, equals what the connected device offers, and the added, removed and changed items it reports are exactly the difference from the previous synchronisation. '
     'It re-synchronises after each reconnection and each interface-changed notification, retrying after failures (with delays that grow up to a limit and start anew after a success), and sensor and request objects obtained through it while it is synchronised describe the current interface; looking up a name that the device does not have finds nothing. Each reading the device reports is handed to the sensor object once, in order.',
     ['histories', 'fault_sequences', 'configurations'], 'all interface change histories, disconnect points and inspection failures',
     'Tests change one sensor once; histories of changes combined with failures during inspection are unbounded.',
     ['katcp/inspecting_client.py'],
     [('state loop', 'inspecting_client.InspectingClientAsync._state_loop'), ('index update', 'inspecting_client.InspectingClientAsync.update_sensor / _update_index')],
     'model-equality and diff-exactness monitor under scripted interface changes and faults',
     'Sampled histories on a virtual-time loop against a scripted device; equality is checked at every reported sync.')
prop('C15', 'Client sensors keep their strategy and mirror the device across outages',
     'A sampling strategy set through a resource client, or through one of its sensor objects, stays in force: it may be set before the sensor or a connection exists, after every reconnection or interface change it is applied again on the device as last set, until changed or dropped, and a refusal is reported as a failure. '
     'While connected a client-side reading converges to the device\'s latest reported reading; a listener registered on a sensor object, or for a sensor name through the resource (then surviving removal and return of the sensor), is called exactly once per reported update with the reading reported, in order, and never after it was removed; polls and waits answer from readings the device reported. '
     'Once synchronised the resource exposes exactly the device\'s sensors and its allowed requests.',
     ['histories', 'fault_sequences'], 'all histories of strategy changes, listener changes, updates and outages',
     'Tests reconnect once with one strategy; persistence over arbitrary outage histories cannot be sampled by hand.',
     ['katcp/resource_client.py', 'katcp/resource.py', 'katcp/inspecting_client.py'],
     [('strategy cache', 'resource_client.KATCPClientResourceSensorsManager.set_sampling_strategy / reapply_sampling_strategies'), ('model updates', 'resource_client.KATCPClientResource._add_sensors / _add_requests'), ('update dispatch', 'inspecting_client.InspectingClientAsync.update_sensor'), ('listener dispatch', 'resource.KATCPSensor.set / call_listeners')],
     'history checker comparing device-side sampling state and client-side readings after injected outages',
     'Sampled histories on a virtual-time loop with real sockets.')
prop('C16', 'Aggregate sensors always follow their rule and children',
     'At every quiescent point a boolean-tree parent is true exactly when all its children are true (at any depth, after any sequence of adds, removals and child updates), and an aggregate sensor equals its rule applied to the current readings of its children. '
     'Aggregates declared before their children exist start following once all children are registered, stop when a child is deregistered, and resume when it is registered again; after removal a parent no longer follows.',
     ['histories'], 'all tree shapes and histories of add, remove, register, deregister and update',
     'Tests build one small tree; the invariant must hold after every prefix of every history.',
     ['katcp/sensortree.py'],
     [('propagation', 'sensortree.GenericSensorTree.update'), ('rules', 'sensortree.BooleanSensorTree / AggregateSensorTree')],
     'invariant monitor over random operation histories on sensor trees',
     'Random histories checked after each operation against a recomputed model.')
prop('C17', 'Asynchronous primitives neither lose nor invent wake-ups',
     'A waiter on an event or state resolves if and only if the event is set (or the state entered) while it waits or already holds when it starts waiting, or its timeout expires; clearing or leaving the state afterwards never loses a wake-up already due. '
     'until_any resolves with the first result, until_some with at least the requested number of results correctly indexed, timeouts bound the total wait, and state callbacks receive the new state. ',
     ['schedules', 'histories'], 'all interleavings of set, clear, wait and timeout on event, callback-event, state and combinators',
     'Tests run single fixed interleavings.',
     ['katcp/core.py'],
     [('events', 'core.AsyncEvent / AsyncState / AsyncCallbackEvent'), ('combinators', 'core.until_any / until_some / future_timeout_manager')],
     'trace checker over random operation schedules on a virtual-time loop',
     'Sampled schedules with exact virtual time.')
prop('C18', 'Cross-thread calls run once in the event loop and report back',
     'A call made from any thread through the thread-safe wrappers (blocking clients, wrapped objects, server send and inform calls from threads) executes exactly once, in the event-loop thread, in submission order per thread; the caller gets its return value or its exception, or a timeout error if it takes longer than the timeout. '
     'Messages sent from threads reach the client complete, exactly once and in per-thread order.',
     ['schedules', 'histories'], 'all interleavings of calls from many threads, including from the loop thread itself',
     'Tests call from one thread.',
     ['katcp/ioloop_manager.py', 'katcp/client.py', 'katcp/server.py'],
     [('thread wrappers', 'ioloop_manager.IOLoopThreadWrapper / ThreadSafeMethodAttrWrapper'), ('blocking client', 'client.BlockingClient, client.make_threadsafe_blocking'), ('send from thread', 'server.KATCPServer.send_message_from_thread')],
     'linearizability-style history checker under multi-threaded stress',
     'Real threads, sampled schedules with injected yields; oracle over recorded call histories.')
prop('C19', 'Servers and clients start, stop and restart cleanly at any point',
     'A server or client, with its own or a shared event loop, can be started, stopped, joined and started again any number of times and at any point of its activity: after stop and join its threads have ended, its port is free, its connections are closed, and a restarted instance works as new. '
     'Starting a running instance is refused, stopping resolves its result, and requests outstanding at stop are resolved.',
     ['schedules', 'crash_points', 'configurations'], 'all stop/start points relative to connections, outstanding requests and sampling, all concurrency modes',
     'Tests start and stop once per case from an idle state.',
     ['katcp/server.py', 'katcp/client.py', 'katcp/ioloop_manager.py'],
     [('loop ownership', 'ioloop_manager.IOLoopManager'), ('stop sequence', 'server.DeviceServerBase.stop, client.DeviceClient.stop')],
     'life-cycle state-machine monitor with resource (thread, port, socket) accounting',
     'Sampled stop points under load; deadlock is judged with a generous stall bound.')
prop('C20', 'Device log informs respect the level and reach all clients',
     'A log message at or above the device\'s current log level is sent exactly once, in order, to every connected client as a #log inform with its level, timestamp in the client protocol\'s format, logger name and text; messages below the level are sent to nobody. '
     '?log-level sets and reports the level for every legal level name and refuses illegal ones leaving the level unchanged.',
     ['inputs', 'histories', 'configurations'], 'all levels, message texts, level-change histories and protocol majors',
     'Tests check two levels.',
     ['katcp/server.py'],
     [('level filter', 'server.DeviceLogger'), ('level request', 'server.DeviceServer.request_log_level')],
     'model-based history checker over level changes and log calls',
     'All level pairs enumerated; texts sampled.')
prop('C21', 'Protocol version and flags are negotiated and honoured',
     'Version strings parse and print inversely and announce exactly the flags a server has; handlers restricted to a protocol version or flag exist only on servers satisfying it. '
     'A client adapts to the announced (or preset) version: message ids are used only with servers that support them, timestamps on the wire, a server\'s sampling periods and the client\'s time conversion follow the major version, and requesting a message id from a server without support is refused; a server without ids support still has its requests matched by name order. ',
     ['configurations', 'inputs'], 'all version/flag combinations on either side and announcement orders',
     'Tests cover the default v5 and a single v4 server.',
     ['katcp/core.py', 'katcp/client.py', 'katcp/server.py', 'katcp/kattypes.py'],
     [('flags', 'core.ProtocolFlags'), ('handler filtering', 'core.DeviceServerMetaclass'), ('client adaptation', 'client.DeviceClient._get_mid_and_update_msg')],
     'configuration-enumerating monitor on announced flags and emitted wire traffic',
     'Flag combinations enumerated; wire traffic inspected at a scripted peer.')
prop('C22', 'Container and group views equal the union of their members',
     'At every point a resource container\'s sensors and requests equal the union of its current children\'s, under their prefixed names, and each group\'s requests the union of its members\', whichever attribute is read first and through every history of adding children and groups and of sensors, requests and connections appearing or disappearing; at rest they equal what the devices offer. '
     'A group request goes exactly once to each member that has the request, its result holds each member\'s reply (None for members without the request) and is true only if all members succeeded; a wait on a group is true iff a quorum of its members satisfied the condition in time. Listings give exactly the matching sensors, and strategies and listeners set through a container or group reach every matching sensor with an honest report of the outcome. ',
     ['histories', 'configurations', 'schedules'], 'all container histories, group compositions, quorums and member outcomes',
     'Tests use one fixed two-member container.',
     ['katcp/resource_client.py', 'katcp/resource.py'],
     [('container views', 'resource_client.KATCPClientResourceContainer'), ('groups', 'resource_client.ClientGroup / GroupRequest / GroupResults')],
     'model-equality monitor over container histories and scripted group outcomes',
     'Sampled histories with fake and scripted members on a virtual-time loop.')
prop('C23', 'Sensors hold the reading last set and tell each observer of it once',
     'A sensor starts with its documented default (or the one given), status and parameters, and from then on every read, formatted or not and from any thread, gives one complete reading (timestamp, status, value), the one last set by whichever way of setting. '
     'Each set tells every observer attached to the sensor exactly once, with the sensor and precisely the reading set, also when observers set, attach or detach from within an update, or when several threads set, attach and detach at the same time (updates of one thread in their order); detached observers hear of no later update. '
     'Malformed formatted readings and values outside a discrete sensor\'s set are refused, changing nothing and telling nobody.',
     ['inputs', 'histories', 'schedules'], 'all sensor types, readings, both protocol majors, observer behaviours and thread schedules',
     'Tests set a value or two with one observer from one thread.',
     ['katcp/core.py', 'katcp/kattypes.py'],
     [('reading', 'core.Sensor.set/set_value/set_formatted/read/read_formatted'), ('observers', 'core.Sensor.attach/detach/notify')],
     'model-based history checker over sets and notifications, with concurrent writer/reader stress',
     'Histories and thread schedules are sampled; the order of nested updates between observers is not judged.')
prop('C24', 'A peer that floods its connection cannot starve the others',
     'However much a client sends at once, or however long it keeps sending, be it requests, informs, malformed or blank lines, or new connections, the server handles what other clients send meanwhile after a bounded amount of that client\'s lines, and answers them; clients with requests waiting are served in turn, and each request is answered once even if more wait than can be queued. '
     'However many lines are waiting to be read, a client gives its event loop a turn at least about every MAX_LOOP_LATENCY, so that timers, callbacks and other clients of the loop go on.',
     ['inputs', 'schedules', 'configurations'], 'all floods of lines and connections, threading modes and client classes',
     'Tests send a handful of lines, which never fill a read buffer.',
     ['katcp/server.py', 'katcp/client.py', 'katcp/core.py'],
     [('server turn', 'server.KATCPServer._line_read_loop'), ('client turn', 'client.DeviceClient._line_read_loop, core.LatencyTimer')],
     'ordering monitor on the turns others get during injected floods (deterministic and sustained)',
     'Floods are sampled; the bound is generous (thousands of lines at the server, 0.1 s at the client).')
prop('C25', 'A client hands each message it receives to its handler once, in order',
     'Each well-formed line a server sends reaches, exactly once and in the order sent, the handler of its kind and name: the client class\'s own, inherited or overridden request, reply and inform handlers, otherwise the unhandled_request, unhandled_reply or unhandled_inform hook, and for inspecting clients first every hook registered for that inform, as registered at that time. '
     'This holds however the bytes are split or batched, between blank and malformed lines, and whatever handlers do (raise, return replies, run asynchronously, register or remove hooks). '
     'A line cut off by a lost connection is neither handled nor joined to the next connection\'s bytes. A reply returned by a client\'s request handler is sent once, with that request\'s name and message id; messages a user sends arrive complete, once and in order.',
     ['inputs', 'schedules', 'histories'], 'all line sequences, segmentations, connection losses and handler behaviours',
     'Tests call handlers directly, with one message at a time.',
     ['katcp/client.py', 'katcp/core.py', 'katcp/inspecting_client.py'],
     [('dispatch', 'client.DeviceClient.handle_message/handle_request/handle_reply/handle_inform'), ('reading', 'client.DeviceClient._line_read_loop'), ('hooks', 'inspecting_client._InformHookDeviceClient.handle_inform')],
     'exactly-once and order checker of handler calls against the lines a scripted peer sent',
     'Sequences, segmentations and behaviours are sampled.')

prop('C26', 'Resource requests reach the device once and yield the device\'s own answer',
     'Calling a request of a KATCPClientResource (by attribute, by name, through its container, through its request object or its inspecting client) sends the device exactly one request, with that name, those arguments and, where the device supports them, the given or a fresh unused message id; a call on an inactive resource raises KATCPResourceInactive and sends nothing, nor is anything sent for a message id the device cannot take. '
     'The call resolves once, with the device\'s own reply and all of its informs in the order sent, and the reply object shows just that (succeeded, reply, informs, messages). Without an answer it fails at the timeout in force: the one given, else the hint the device published for that request, else the client\'s default; when the connection is lost it fails then.',
     ['inputs', 'schedules', 'histories'], 'all requests, answer timings, interface changes, outages and activity changes',
     'Tests mock the inspecting client, or make single requests that are answered at once.',
     ['katcp/resource_client.py', 'katcp/resource.py', 'katcp/inspecting_client.py'],
     [('requests', 'resource_client.KATCPClientResourceRequest.issue_request'), ('replies', 'resource.KATCPReply'), ('wrapping', 'inspecting_client.InspectingClientAsync.simple_request'), ('timeouts', 'client.AsyncClient.future_request')],
     'comparison of what the scripted device received and did with the result and the time of each call',
     'Scripts are sampled.')

prop('C27', 'A fake client shows, and answers with, exactly what it was given',
     'A faked inspecting client, resource or container (fake_clients) synchronises like a connected one, and shows exactly the sensors (name, description, units, type, parameters) and requests (name, help text) given to it so far, whenever and however they were given, besides its own help and sensor-list, whose answers agree. '
     'Sensors that cannot be and handlers without a docstring are refused and change nothing. A request with a handler calls it once with the arguments and message id sent, and resolves with the reply it returned, at once or later, and its informs in order, all under that message id; other requests succeed. A fake can be stopped, and until_stopped() then resolves.',
     ['inputs', 'histories'], 'all sensors and handlers given, in any order and at any time, and all requests made',
     'Tests give one fixed set of sensors and handlers.',
     ['katcp/fake_clients.py', 'katcp/inspecting_client.py', 'katcp/resource_client.py'],
     [('factories', 'fake_clients.fake_inspecting_client_factory and fake_KATCP_client_resource*_factory'), ('managers', 'fake_clients.FakeInspectingClientManager'), ('requests', 'fake_clients.FakeAsyncClient.future_request')],
     'comparison with a model of everything given, of the faked client\'s interface and of every answer',
     'Histories are sampled; sensor values are not part of the fakes.')

prop('C28', 'Nothing accumulates in a process that keeps running',
     'However often any operation of a server, client, inspecting client, resource, container, sensor or tree is repeated - connections made, refused, lost, reset or flooded; requests answered, refused, timed out, cut off or never sent; sampling set, replaced, ended; sensors, listeners, observers, rules and links added and removed; waits that time out; outages, interface changes, restarts - once it is over it leaves nothing behind in the object that goes on: no further objects, open files, threads, timers, loop handlers, queue or table entries per repetition.',
     ['histories', 'faults'], 'all histories of operations, of any length',
     'Tests repeat two operations of one client, and look for uncollectable objects only.',
     ['katcp/server.py', 'katcp/client.py', 'katcp/core.py', 'katcp/sampling.py', 'katcp/inspecting_client.py', 'katcp/resource_client.py', 'katcp/resource.py', 'katcp/sensortree.py'],
     [('connections', 'server.KATCPServer._stream_closed_callback, server.DeviceServer.on_client_disconnect'), ('strategies', 'server.DeviceServer.clear_strategies, sampling.SampleStrategy.cancel'), ('requests', 'client.AsyncClient._pop_async_request and _reset_async_requests'), ('waits', 'core.until_any'), ('listeners', 'resource.KATCPSensor.wait and unregister_listener'), ('trees', 'sensortree.GenericSensorTree.remove_links')],
     'leak monitor: a census of all live objects by type, open files, threads, timers and handlers between equal numbers of repetitions',
     'Growth of less than one object per repetition is not a leak to this monitor; operations are enumerated by hand, sequences of them sampled (thorough tier).')

prop('C29', 'A server hands each message it receives to its class\'s handler once, in order',
     'Each well-formed line a client sends reaches, exactly once and in the order sent on that connection, the request, inform or reply handler that the server\'s class has for its name - its own, inherited, mixed in or overriding, underscores in method names being dashes in message names - with the connection it came by and the message as sent; handlers that are taken away (None), restricted to a protocol version or flag the server does not have, or defined only in subclasses or other classes, are never called. '
     'Requests without a handler are answered invalid; informs and replies without one, and whatever handlers of informs and replies do (raise, return, send, never finish), have no effect on other messages and send the client nothing but what they send. All handlers run in one thread: the handler thread, or the event loop if there is none. Handlers without a docstring are refused when the class is made, and ?help lists exactly the requests handled.',
     ['inputs', 'schedules'], 'all classes of handlers, line sequences, segmentations and threading modes',
     'Tests send requests to a few fixed classes, and one unknown inform and reply.',
     ['katcp/server.py', 'katcp/core.py', 'katcp/kattypes.py'],
     [('dispatch', 'server.DeviceServerBase.handle_message/handle_request/handle_inform/handle_reply'), ('tables', 'core.DeviceMetaclass and DeviceServerMetaclass'), ('threads', 'server.MessageHandlerThread, server.DeviceServerBase.set_concurrency_options')],
     'exactly-once and order checker of handler calls, threads and connections, and of the lines each client received, against the lines sent to servers of random classes',
     'Classes, sequences and segmentations are sampled.')

prop('C30', 'A test helper passes exactly when what it asserts is true',
     'For any device, sensor history and message history, each assertion of katcp.testutils (BlockingTestClient\'s about sensor values, statuses, lists, help texts, requests and setters; SensorComparisonMixin\'s; TestUtilMixin\'s) passes if what it states is true and otherwise fails with an AssertionError, whatever the values compared contain. '
     'The waits (wait_until_sensor(s)_equal(s), wait_condition, SensorTransitionWaiter, wait_sensor, wait_sensor_async, the waiting mocks, counting_callback, until_messages) succeed if and only if the awaited thing has happened or happens within the timeout, including while the waiter is being set up, and leave no observer behind. '
     'Message recorders return exactly the messages that match their lists, filter and types, once each and in order; a mock request handled by an unstarted server yields the reply and informs a connected client would get; warped time fires exactly the timeouts that are due.',
     ['inputs', 'schedules', 'histories'], 'all devices, sensor readings, histories of updates and messages, expectations and timeouts',
     'Tests only use the helpers where they should pass; a helper that passes too easily makes every test that uses it pass.',
     ['katcp/testutils.py'],
     [('assertions', 'testutils.BlockingTestClient, SensorComparisonMixin, TestUtilMixin'), ('recorders', 'testutils.MessageRecorder'), ('transitions', 'testutils.SensorTransitionWaiter, wait_sensor, wait_sensor_async'), ('mocks', 'testutils.WaitingMock, AsyncWaitingMock, mock_req, handle_mock_req, counting_callback'), ('time', 'testutils.TimewarpAsyncTestCase')],
     'outcome of each helper (pass, AssertionError, anything else; early, late) against the truth known to the harness, expectations true about half of the time; mock requests against the same requests over a connection',
     'Values, histories and expectations are sampled; float expectations keep away from the rounding limit of the places compared.')
