PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, level, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, level=level, note=note, **kw))


CORE, SERVER, CLIENT = 'katcp/core.py', 'katcp/server.py', 'katcp/client.py'
SAMP, KAT, RES = 'katcp/sampling.py', 'katcp/kattypes.py', 'katcp/resource.py'
RCL, INS, TREE, IOM = ('katcp/resource_client.py', 'katcp/inspecting_client.py',
                       'katcp/sensortree.py', 'katcp/ioloop_manager.py')

P('C01', 'Wire messages survive serialise / parse unchanged',
  'Any message with a legal name (ASCII letter followed by ASCII letters, digits and hyphens), an optional positive-integer message id and any list of byte-string arguments serialises to a single line that contains no raw space, newline, carriage return, tab, NUL or ESC except the separating spaces, and parsing that line gives back an equal message. Text, integer, float and boolean arguments are stored as their documented byte encodings (UTF-8, decimal, repr, 1/0), and copying a message keeps type, name, arguments and id.',
  ['inputs'], 'all argument lists up to length 2 over an alphabet containing every escaped and boundary byte (length 3 arguments), all 256 single bytes, all message types, names and ids of a small set',
  'The tests parse and print a few dozen literal messages; escaping interacts between adjacent bytes and empty arguments.',
  [CORE], [('escape / unescape', 'katcp/core.py Message.__bytes__, MessageParser._parse_arg')],
  'bounded-exhaustive enumeration of messages executed on the real codec', 'exploration',
  'Exhaustive over the stated alphabets; trusts the bytes comparison only.')

P('C02', 'The parser accepts exactly the protocol grammar and never fails otherwise',
  'For every byte string the parser either returns the one message the katcp grammar assigns to it or raises KatcpSyntaxError; it never raises anything else and never guesses. Argument separators are runs of spaces and tabs, trailing separators are ignored, escapes outside the documented set, bad type characters, bad names and bad ids are all rejected.',
  ['inputs'], 'all byte strings up to length 6 over a 12-symbol alphabet of grammar-relevant bytes, plus all single and double bytes, against an independently written reference parser',
  'Unit tests feed about twenty malformed lines; the grammar has unbounded combinations of escapes, separators, ids and non-UTF-8 bytes.',
  [CORE], [('line grammar', 'katcp/core.py MessageParser.parse')],
  'bounded-exhaustive enumeration of byte strings, real parser vs reference recogniser', 'exploration',
  'Exhaustive within the alphabet and length; the reference parser in mc/checks/c02.py is the oracle.')

P('C03', 'Message framing does not depend on how the byte stream is cut up',
  'A server and a client act on exactly the sequence of lines contained in the byte stream they receive (lines end in LF, CR or CRLF, empty lines are skipped), once each and in order, however the stream is divided into TCP segments; a malformed line produces a #log error inform (server) or is skipped (client) and later lines are still handled. On a server a line longer than the configured maximum closes that connection only, and no request is ever executed twice.',
  ['inputs', 'schedules'], 'streams of up to three lines from a 14-line alphabet with all terminators, each delivered with every placement of up to 1-3 cuts and byte by byte, on the real server and client; overlong lines of several sizes at several cuts',
  'Tests write whole lines in one send; segment boundaries inside escapes, ids or CRLF are never controlled.',
  [SERVER, CLIENT], [('read loops', 'katcp/server.py KATCPServer._line_read_loop; katcp/client.py DeviceClient._line_read_loop')],
  'stateless exploration of all bounded segmentations on the real server/client over virtual sockets', 'model_checking',
  'Every execution runs the real code over real tornado IOStreams on in-memory sockets; bounds on stream length and number of cuts.')

P('C04', 'Every request gets exactly one reply, last, with its own name and id',
  'For every request a server receives on a connection that stays open it sends exactly one reply, carrying the name and message id of that request, after all informs that the handler sent for it (which carry the same name and id); no other message is sent for it. This holds whether the handler returns a reply, fails with FailReply, raises, returns something that is not a reply to the request, replies itself and raises AsyncReply, or returns a future that resolves in any of these ways now or later, from the event loop or another thread; an unknown request gets an invalid reply, an exception a fail reply (so does a request for which the queue of the handler thread has no room), arguments may be any bytes, and after replying a further attempt to reply or inform through the request raises an error.',
  ['schedules', 'inputs', 'configurations'], 'all interleavings of arrivals, completions and connection loss for all pairs (and selected triples) of 25 handler behaviours, in the single-threaded, thread-safe and handler-thread configurations (pre-emption bound 1 quick, 2 thorough); every built-in request with all argument lists of a small alphabet',
  'Tests exercise a handful of handlers one at a time with fixed timing and well-formed text arguments.',
  [SERVER], [('dispatch and reply', 'katcp/server.py DeviceServerBase.handle_request, ClientRequestConnection'), ('thread hand-over', 'katcp/server.py KATCPServer.call_from_thread')],
  'stateless model checking of the real server (all event orders; bounded pre-emption for threads)', 'model_checking',
  'Real code under a deterministic event loop, virtual sockets and a controlled thread scheduler; scheduling points at synchronisation operations and loop callbacks.')

P('C05', 'Requests of one connection run in order, connections are isolated',
  'Messages of one connection are handled in the order received: a request whose handler has not finished delays the later messages of that connection (and only of that connection), unless its handler is marked as concurrent or has raised AsyncReply, in which case it delays nothing. All output for a request precedes all output of the following non-concurrent requests, and garbage, failures, pending work or loss of one connection never change what another connection receives.',
  ['schedules', 'histories'], 'all interleavings of arrivals (single or in bursts), completions and connection loss for sequences of up to 4 messages on one connection and 2-3 connections, compared after every event with an explicit reference model',
  'Tests cannot enumerate orders of completions and arrivals; they check two or three fixed orders.',
  [SERVER], [('per-connection read loop waits for the handler', 'katcp/server.py KATCPServer._line_read_loop'), ('concurrent replies', 'katcp/kattypes.py concurrent_reply')],
  'explicit-state reference model run in lock step with the real server over all bounded event orders', 'model_checking',
  'Model and implementation outputs are compared after every event; thread configurations explored with bounded pre-emption.')

P('C06', 'Every client request completes exactly once, with its own reply and informs',
  'Every request made through the future, callback or blocking interface of the asynchronous client completes exactly once: with the matching reply of the server (matched by message id if the request was sent with one, otherwise by name, oldest first) and, where asked for, exactly the informs received for it in order, or else with a fail reply for that request when its time-out expires, the connection is lost or the client stops. Messages that match no outstanding request are passed to the unhandled-message handlers and complete nothing; replies with unknown, used or timed-out ids, exceptions in user callbacks, and other requests never change this.',
  ['schedules', 'histories'], 'all interleavings of issuing up to three requests (every combination of message-id use, time-out and interface of a set), informs, replies, stray and duplicate messages, time-outs, connection loss, reconnection and stop (bounded number of deviations), three protocol flavours; blocking requests from up to two threads with bounded pre-emption',
  'Tests wait for one reply at a time; races of replies with time-outs, disconnects and reconnects need controlled event order and time.',
  [CLIENT], [('request stack', 'katcp/client.py AsyncClient._push_async_request, _pop_async_request, _do_timeout, _msg_id_for_name'), ('futures', 'katcp/client.py AsyncClient.future_request, blocking_request')],
  'explicit-state reference model run in lock step with the real client over all bounded event orders', 'model_checking',
  'Virtual clock and sockets; the model is compared after every event except within bursts, where only exactly-once and matching are required.')

P('C15', 'Waiting on events, states and futures never misses or invents a wake-up',
  'A wait on an AsyncEvent or AsyncState (until_set, until_state, until_state_in, with or without time-out) succeeds exactly if the awaited event or one of the awaited states holds when the wait begins or is entered later before the time-out, even if it no longer holds afterwards, and otherwise fails with a time-out error at the deadline; any number of waits may be pending, waiters may change the event or state or wait again from their callbacks, and none influences another. until_any resolves with the outcome of the first of its futures to finish and leaves nothing behind on the others, until_some with the results of the first k in order of completion, change callbacks of AsyncCallbackEvent are told True on set and False on clear, and a thread blocked in wait_with_ioloop is woken by set and otherwise returns after its time-out.',
  ['histories', 'schedules'], 'all sequences of operations up to depth 4-6 (7 thorough) over seven operation alphabets covering 23 kinds of wait, all resolution orders of three futures under up to two combined waits, all schedules of up to two blocked threads with up to 2 (3) pre-emptions',
  'Lost wake-ups only show when several waiters share a state, or a waiter acts again while others are being woken; tests use one waiter.',
  [CORE], [('wake-ups', 'katcp/core.py AsyncEvent, AsyncCallbackEvent, AsyncState, until_any, until_some, future_timeout_manager')],
  'exhaustive exploration of operation sequences, real code in lock step with a reference model', 'model_checking',
  'Virtual clock and loop; model compared after every operation.')

P('C07', 'Sampling strategies send exactly the updates they promise',
  'After a client sets a sampling strategy on a sensor it gets, before the ok reply, one update with the current reading (except for none), and after that: auto - one update per sensor update; event - one per change of status or value; differential - one whenever status changes or the value differs from the last one sent by more than the given amount (a change to or from not-a-number counts, not-a-number again does not); period - one per period with the reading of that moment, never drifting, also after the event loop was busy for less than a period; event-rate and differential-rate - no two updates closer than the shortest period, an update at the latest when the longest period has passed, a change that had to wait is sent (with the then current reading) as soon as the shortest period is over, and nothing else. Every update carries the exact time, status and value of a sensor reading; setting a strategy replaces the previous one of that client and sensor, and an invalid strategy or parameter is refused with a fail reply and leaves the old strategy working. Periods are milliseconds in protocol version 4 and seconds in version 5.',
  ['histories', 'inputs', 'configurations'], 'all sequences (depth 4-6) of sensor updates, passing of time (also late wake-ups of the event loop) and re-configuration, for each strategy with several parameter sets, six sensor types, sequential and queued updates, protocol versions 4, 5 and 5.1, all ordered pairs of strategies',
  'Tests drive one or two fixed update sequences per strategy with a mocked clock; corner cases need specific orders of updates and time-outs.',
  [SAMP, SERVER], [('strategies', 'katcp/sampling.py SampleStrategy and subclasses'), ('request', 'katcp/server.py DeviceServer.request_sensor_sampling')],
  'explicit-state reference model run in lock step with the real server over all bounded event orders', 'model_checking',
  'Virtual clock; the rate-limited strategies are checked against minimum/maximum separation, freshness and absence of spurious updates.')

P('C08', 'A strategy that was removed leaves nothing behind',
  'Once a client has the reply to setting strategy none or to clearing its strategies, or has been disconnected (by either side), or the sensor has been removed from the server, no further update for that client and sensor is sent, no observer of it stays attached to the sensor and no timer stays behind; replacing a strategy leaves exactly the new one active. Strategies of other clients and other sensors are never affected, and at every moment each client has at most one strategy per sensor. This holds for updates made in the event loop or in other threads, and for single and bulk requests.',
  ['histories', 'schedules', 'faults'], 'all sequences (depth 3-4) of setting, replacing, clearing, bulk setting, sensor updates, removal of sensors and connection loss by up to two clients and two sensors, with up to 2-3 placements of partial event loop progress; update threads racing with cancellation with pre-emption bound 1 (2 thorough) inside the sampling code',
  'Leftovers only appear when a cancellation races with pending callbacks or connection loss; tests cancel in quiescent states.',
  [SAMP, SERVER, CORE], [('cancel', 'katcp/sampling.py SampleStrategy.cancel'), ('clean-up', 'katcp/server.py DeviceServer.clear_strategies, remove_sensor, on_client_disconnect')],
  'stateless exploration of all bounded histories and schedules of the real server, with leak probes', 'model_checking',
  'Virtual loop, sockets and threads; scheduling points before each statement of katcp.sampling.')

P('C09', 'Sensor updates from other threads always reach the clients',
  'When one thread updates a sensor while clients set up or hold sampling strategies on a server running in its own thread, every client ends up with the last reading once the system is idle (for event-rate and differential-rate: within the periods asked for), the auto and event strategies report every update respectively change made after the strategy was confirmed, in order, and nothing is reported that was never set.',
  ['schedules'], 'all schedules with up to 1-2 (2-3 thorough) pre-emptions, with scheduling points before every statement of katcp.sampling, of one updating thread against up to two clients setting up or holding each strategy, with and without handler thread',
  'The race between an update and the start of a strategy needs a pre-emption between two statements.',
  [SAMP, CORE], [('hand-over to the event loop', 'katcp/sampling.py SampleStrategy.update, start'), ('observers', 'katcp/core.py Sensor.attach, notify')],
  'stateless model checking of the real code under a controlled scheduler (bounded pre-emption)', 'model_checking',
  'One updating thread per sensor, which is the documented use; scheduling points at statements and attribute accesses of katcp.sampling.')

P('C10', 'Sensor readings are never torn',
  'Whatever threads set and read a sensor (katcp.Sensor or KATCPSensor) at the same time, every reading obtained through read, read_formatted, reading, ?sensor-value, #sensor-status or by an observer or listener is one that was set as a whole: timestamp, status and value belong together. With one writer successive reads never go back in time and the last reading set is the one that stays; every set is passed on to observers and listeners exactly once with exactly the reading it set.',
  ['schedules'], 'all schedules with up to 3 pre-emptions (2 for three threads) with scheduling points before every statement and attribute access of katcp.core and katcp.resource, of one or two writers using each of three setters with one or two readers, or a server answering ?sensor-value and ?sensor-sampling',
  'A torn reading needs a pre-emption between two particular attribute accesses.',
  [CORE, RES], [('single assignment', 'katcp/core.py Sensor.set, read'), ('KATCPSensor.set', 'katcp/resource.py KATCPSensor.set')],
  'stateless model checking of the real code under a controlled scheduler (bounded pre-emption)', 'model_checking',
  'Scheduling points at statement and attribute granularity, not bytecode granularity.')

P('C14', 'The client connection life cycle is consistent and self-healing',
  'While a client with auto-reconnect runs it has at most one connection or connection attempt at a time; whenever it has none a new attempt is made within the reconnection delay, and an accepted attempt leads to a connection that is read and written. notify_connected() is called with True and False strictly in turn, starting with True, is_connected() agrees with it and, once the event loop is idle, with the actual state of the connection, and until_connected() resolves exactly when connected or times out at its deadline; an exception in notify_connected(True) drops the connection. After stop() no attempt is made, a connection that was open or being established is closed (and reported so if it had been reported open), until_stopped() resolves and no timer stays behind; the client can then be started again. Without auto-reconnect the client ends after losing its connection or failing to get one. Sending while not connected raises KatcpClientDisconnected, and no request stays pending without a connection.',
  ['histories', 'faults', 'schedules'], 'all sequences (depth 4-6) of accepted, refused and pending attempts, loss by close or reset at any point (also right after accepting), user disconnect, stop, restart, passing of time, data and requests, with up to 2 points where the next event comes while the event loop still has work, for DeviceClient and AsyncClient, with and without auto-reconnect and with raising user callbacks',
  'The order of connection events relative to steps of the connect and read coroutines cannot be controlled in tests.',
  [CLIENT], [('connect loop', 'katcp/client.py DeviceClient._install, _connect, _connect_loop'), ('loss', 'katcp/client.py DeviceClient._stream_closed_callback')],
  'stateless exploration of all bounded event histories on the real client over virtual sockets', 'model_checking',
  'Virtual clock, loop and sockets; events may arrive between any two callbacks of the event loop (bounded number of such points).')

P('C21', 'Server connections are announced, tracked and torn down exactly once',
  'For every connection a server accepts, on_client_connect() is called once before any message of it is handled and the version informs are the first thing sent; on_client_disconnect() is called exactly once when the connection is lost, closed by the server or the server stops. The connections reported by ?client-list and reached by mass informs are exactly those connected, each gets every mass inform sent while connected once and in order. A client disconnected by the server (once or several times) gets #disconnect as its last message, is given up after the disconnect time-out if it does not read, and other clients are not affected. After stop() (or ?halt) all clients are disconnected, the port is closed, running() is false, the future of stop() is resolved, no timer stays behind, and the server can be started again.',
  ['histories', 'faults', 'schedules'], 'all sequences (depth 4-6) of up to two clients connecting, sending, closing, resetting and not reading, server-side disconnection, mass informs, slow connect and request handlers, stop, halt, restart and time, with up to 1-2 points where the next event comes while the event loop has work left, in the single-threaded and thread-safe configurations, protocol versions 4 and 5',
  'Orders of disconnection, shutdown, slow handlers and pending writes are not controllable with real sockets.',
  [SERVER], [('connections', 'katcp/server.py KATCPServer._handle_stream, _stream_closed_callback, _disconnect_client, _uninstall'), ('registry', 'katcp/server.py DeviceServer.on_client_connect, on_client_disconnect')],
  'stateless exploration of all bounded event histories on the real server over virtual sockets', 'model_checking',
  'Virtual clock, loop and sockets.')

P('C19', 'Sensor trees always show what their structure says',
  'After every operation on a BooleanSensorTree each sensor with dependencies has the AND of their values (True once its last dependency is removed), whatever the sharing in the tree and the order of updates and changes; after every operation on an AggregateSensorTree each sensor with an active rule has the value its rule gives for its current dependencies. A delayed rule is active exactly while all the sensors it names are registered, a removed or waiting rule changes nothing, and refused operations (second rule for a sensor, double registration, unknown sensor) raise ValueError and change nothing. The generic tree recalculates, for every changed sensor, each sensor directly above it, with the changed sensors among its dependencies. Sensors are told apart by identity, so several may have the same name. Membership, parents() and children() agree with the links, the tree observes exactly its members, and observers may add or remove links and rules while a value is being propagated.',
  ['histories'], 'all sequences (depth 4-6) of adding and removing links, rules and delayed rules, (de)registering sensors, setting leaf values and changing the tree from within an update, over graphs of 3 and 4 sensors (all acyclic shapes; diamond and nested rules as starting points)',
  'Stale dependencies appear only in particular orders of changes to shared structure; tests use three fixed scripts.',
  [TREE], [('propagation', 'katcp/sensortree.py GenericSensorTree.update, add_links, remove_links'), ('rules', 'katcp/sensortree.py AggregateSensorTree')],
  'exhaustive exploration of operation sequences, real code in lock step with a reference model', 'model_checking',
  'One thread; the reference model recomputes all values from scratch after each operation.')

P('C22', 'Requests that describe a server tell the truth',
  '?help lists exactly the requests the server answers (by inheritance, with handlers overridden, removed with None, or left out because of the protocol version or flags they require) each with its documentation, and every other request gets an invalid reply. ?sensor-list and ?sensor-value report exactly the registered sensors selected by name or /regular expression/ with their description, units, type, parameters and last reading in the format of the protocol version; an unknown name fails, an expression without match gives ok 0. ?client-list reports the connected clients, ?version-list and the informs sent on connection the versions, ?request-timeout-hint the hints of the handlers. The reply counts the informs sent, also when clients or sensors come and go in other threads while the request is answered: everything present throughout is then reported exactly once.',
  ['histories', 'configurations', 'schedules'], 'all histories (depth 3-4) of (un)registering sensors of every type, setting readings, clients and versions, with 16 filters asked after each step; all assignments of 6-14 kinds of handler to base class, mixin and subclass under 16 pairs of protocol versions; all schedules with 1 (2) pre-emptions of a change during a request',
  'Which handlers exist depends on combinations of inheritance, decorators and protocol flags; concurrent changes need particular schedules.',
  [SERVER, CORE, KAT], [('requests', 'katcp/server.py DeviceServer.request_help, request_sensor_list, request_sensor_value, request_client_list, request_version_list, request_request_timeout_hint'), ('handler tables', 'katcp/core.py DeviceMetaclass, DeviceServerMetaclass')],
  'exhaustive exploration of operation histories, class configurations and schedules on the real server against a reference', 'model_checking',
  'Expected wire formats are tabulated in the check, independent of the code.')

P('C23', 'Log levels take effect exactly and logging never fails',
  '?log-level returns the current level and, given one of the eight level names, sets it first; anything else is refused with a fail reply and changes nothing. Every message logged through the device logger at or above the current level is sent once to every connected client as a #log inform with the right level, time, logger name and text, in order; messages below the level are not sent. Once a level was set, the Python logger records the messages by the same rule and with the corresponding Python level. Logging never raises, whatever the format string and arguments, and may be done from any thread.',
  ['histories', 'inputs', 'schedules'], 'all sequences (depth 2-4) of level requests (valid, invalid, empty and non-UTF-8 names), set_log_level and messages at all levels in 11 formats with default and explicit name and time, two clients, protocol versions 4 and 5; all schedules with 1 (2) pre-emptions of one or two logging threads and a changing level',
  'Only combinations of level, previous level, format and logger fail.',
  [SERVER], [('device logger', 'katcp/server.py DeviceLogger'), ('log informs', 'katcp/server.py DeviceServerBase.create_log_inform')],
  'exhaustive exploration of operation sequences and schedules on the real server in lock step with a reference model', 'model_checking',
  'The text of informs for formats that do not fit their arguments is not specified, only that one is sent.')

P('C11', 'Typed values survive packing and unpacking, everything else is refused',
  'For every katcp type (integer, float, boolean, string, discrete, lru, address, timestamp, strict timestamp, timestamp-or-now, struct, regex, discrete-multi) a legal value packs to the documented wire form and unpacks to an equal value of the same type: floats exactly (whatever kind of real number was given), timestamps to the microsecond in protocol version 5 and to the millisecond in version 4. Every byte string either unpacks to the value its documented syntax gives it (and that value survives another round trip) or is refused with ValueError; values outside the declared range or set are refused both ways, and absent values give the default, None if optional, or are refused. Sensor readings and sensor parameters survive formatting and parsing in the same way.',
  ['inputs'], 'all byte strings up to length 3-4 (5-6 thorough) over an alphabet per type against reference readers; grids of some 12000 values (all milliseconds and microseconds of several intervals, floats of all magnitudes, fractions, non-ASCII text, hosts and ports); all combinations of default and optional; all sensor types, statuses and readings of a set',
  'Tests check a handful of literals per type; rounding and notation problems appear only for particular values.',
  [KAT, CORE], [('types', 'katcp/kattypes.py KatcpType and subclasses, Parameter, pack_types, unpack_types'), ('sensors', 'katcp/core.py Sensor.set_formatted, read_formatted, parse_params')],
  'bounded-exhaustive enumeration of texts and values on the real codecs against reference readers', 'exploration',
  'Texts with underscores, surrounding blanks, inf / nan and doubled brackets are accepted or refused as the code likes, but have to survive a round trip.')

P('C12', 'Typed handlers are called with exactly the values a message carries',
  'A request or inform handler declared with parameter types is called exactly once per message with the message (if asked for) and one value per parameter, in order: the unpacked arguments, then defaults or None for absent ones; a repeated last type takes all remaining arguments. If an argument is illegal or missing or there are too many, the handler is not called; a request then gets one fail reply that identifies the first offending parameter. What a handler with declared reply types returns (directly, as a future, or through send_reply) is sent as an ok reply with exactly the packed values, or as a fail reply with the given reason; anything that does not fit the types gives a fail reply, never an ok reply. The protocol version given to the decorators governs time units. All this is independent of the order of the decorators.',
  ['inputs', 'configurations'], 'all 199 signatures of up to 3 parameters from 8 kinds of type (defaults, optional, ranges, repeated), 5 decorator orders and handler styles, with all argument lists up to length 3 (4) of a 5-symbol alphabet; all return types up to length 2 with all returned tuples up to length 3 (4); inform and reply handlers of both client classes',
  'Argument counts, defaults, repeated parameters and decorator order combine; the tests use a few fixed signatures.',
  [KAT, SERVER, CLIENT], [('decorators', 'katcp/kattypes.py request, inform, unpack_message, return_reply, send_reply, unpack_types, pack_types, make_reply')],
  'bounded-exhaustive enumeration of signatures and messages executed on real servers and clients against a reference', 'exploration',
  'Exhaustive within the stated alphabets and bounds.')

P('C13', 'Client and server agree on the protocol version',
  'Protocol flags print and parse without loss, compare by value, and combinations the protocol forbids are refused. A client that connects to a server of any version knows exactly the version and flags the server announced (4.0 for servers that announce themselves with #version or #build-state), collects all announced component versions, resolves until_protocol() as soon as the version is known (or times out at its deadline), sends requests with message ids exactly if the server supports them (an explicit id is otherwise refused with KatcpVersionError and nothing is sent) and converts times to the unit of the version. Preset flags are never changed by announcements; a server that contradicts itself is disconnected and not tried again; loss of the connection keeps the flags and a restart forgets them unless preset.',
  ['inputs', 'histories', 'configurations'], 'all 768 combinations of version and flags of a set; all legal server versions against both client classes; all sequences (depth 4, 5 thorough) of announcements, requests, waits, connection loss, restarts and presets over four alphabets',
  'The outcome depends on the order of announcements, requests and reconnections.',
  [CORE, CLIENT, SERVER], [('flags', 'katcp/core.py ProtocolFlags'), ('detection', 'katcp/client.py DeviceClient.inform_version_connect, _set_protocol_from_inform, preset_protocol_flags'), ('announcement', 'katcp/server.py DeviceServer.on_client_connect')],
  'exhaustive exploration of announcement histories on the real client in lock step with a model', 'model_checking',
  'Unparsable version texts and illegal flag combinations sent by a server are not specified.')

P('C16', 'The inspecting client knows the server whenever it says so',
  'Whenever the inspecting client reports data_synced, its sensors and requests (names, descriptions, units, types, parameters, time-out hints, and the objects made from them) are those of one complete inspection of the server made after the last (re)connection and interface change it was told about, and the reported model changes are exactly the differences to the inspection reported before, whatever answers were late, missing, failed or cut off in between. It reports synced only right after data_synced, once the user was told and the state callback has finished; a failed inspection changes nothing and is tried again after at most the current back-off, which starts over after a success; once the server and connection are stable the client always ends up synced, whatever state callbacks raised, with exactly one inspection per change, also after it was stopped and started again. Looking up a sensor or request gives its current description or None if the server does not have it, and sensor updates reach the current object.',
  ['histories', 'fault_sequences', 'schedules'], 'all histories (depth 2-4) of changing, adding and removing sensors and requests, notifications, connection loss, refusal and time, lookups, slow and raising state callbacks, stop and restart, with 1-2 answers of the server held back past the next event, failed, lost with the connection or never given; servers with and without time-out hints',
  'A stale model needs a change or fault between particular steps of an inspection; tests change the interface only while nothing is going on.',
  [INS], [('state loop', 'katcp/inspecting_client.py InspectingClientAsync._state_loop'), ('inspection', 'katcp/inspecting_client.py InspectingClientAsync.inspect, _update_index, _difference'), ('lookups', 'katcp/inspecting_client.py InspectingClientAsync.future_get_sensor, future_get_request')],
  'stateless exploration of all bounded histories and faults on the real client against a scripted server', 'model_checking',
  'Virtual clock, loop and sockets. What a stopped client says until its back-off ends is not claimed.')

P('C17', 'A client resource keeps strategies and listeners on its sensors',
  'Whenever a client resource is synced, its sensors and requests are those of the device (under escaped names, allowed requests only), the device samples every sensor with the strategy the user set last and did not drop (also when it was set before the sensor or the connection existed, and again after every reconnection and reappearance of the sensor), and every listener the user set for a sensor hears each of its updates exactly once. Strategies that were replaced, dropped or cleared are never applied again; a strategy the device refuses is reported and changes nothing else. Requests reach the device and give its reply and informs, fail when it is not connected, and are refused while the resource is inactive; waiting for a state resolves exactly when the state is reached.',
  ['histories', 'fault_sequences', 'schedules'], 'all histories (depth 2-4) of setting, replacing and dropping strategies and listeners by name, by filter and on the sensor, appearing and disappearing sensors and requests, connection loss and refusal, with up to 2 answers of the device held back past the next event, failed or lost with the connection',
  'Strategies are reapplied by background coroutines that race with the user and with reconnections; the tests of this are few (and flaky).',
  [RCL, RES, INS], [('strategies', 'katcp/resource_client.py KATCPClientResource.set_sampling_strategy, drop_sampling_strategy, _add_sensors; KATCPClientResourceSensorsManager.reapply_sampling_strategies'), ('listeners', 'katcp/resource_client.py KATCPClientResource.set_sensor_listener'), ('requests', 'katcp/resource_client.py KATCPClientResourceRequest')],
  'stateless exploration of all bounded histories and faults on the real resource against a scripted device', 'model_checking',
  'Names that collide when escaped, refused strategies\' success values, restarts, and the state between the loss of a connection and the end of the back-off of the failed inspection are not claimed. Virtual clock, loop and sockets.')

P('C18', 'Sensor proxies report every update; waits resolve at the right time',
  'A sensor of a resource has the last reading it was given, and each registered listener (function or method, with the reading or with its parts) is called exactly once per update, in order, with that reading, whatever other listeners raise or (un)register meanwhile. wait() is refused without a sampling strategy; otherwise it gives True as soon as the current or a later reading satisfies the value or condition, fails with the exception of the condition or with a time-out at its deadline, exactly once, and stops listening then. get_reading(), get_value() and get_status() poll the device and give the reading that answers the poll, or fail if the poll fails.',
  ['histories', 'schedules'], 'all histories (depth 5, 6 thorough) over eight alphabets of updates (parsed and direct), registering, unregistering, raising and self-unregistering listeners, waits for values and conditions with different time-outs, passing time, polls and their answers',
  'Registration, updates, time-outs and the deferred check of the initial reading interleave; tests use one listener and one update.',
  [RES], [('sensor', 'katcp/resource.py KATCPSensor.set, set_formatted, register_listener, call_listeners'), ('wait', 'katcp/resource.py KATCPSensor.wait'), ('poll', 'katcp/resource.py KATCPSensor.get_reading')],
  'bounded-exhaustive exploration of all operation sequences on the real sensor object in lock step with a model', 'model_checking',
  'A time-out of 0 may give a time-out even if the reading is right. The sensor manager is a stub.')

P('C26', 'Containers and groups show what their clients have, and act on all of them',
  'The requests and sensors of a container are at every time exactly those of its clients (prefixed with the client name, except for aggregate sensors), those of a group the union over its members, whatever is read first and however clients, their interfaces, groups and connections change. A group request is sent once to each member that has it, gives the answer of each (None for the others) and is true only if all succeeded; strategies and listeners set through a container reach the matching sensors; list_sensors() returns exactly the matching sensors; until_...() futures resolve as soon as (and only if) the condition held for all or any clients or at the time-out. Waiting in a group is true exactly if the quorum of clients satisfied the condition by the end of the grace period that follows the quorum or the initial time-out, and resolves as early as that allows.',
  ['histories', 'configurations', 'schedules'], 'all histories (depth 3-4, 4-5 thorough) over seven alphabets of reading, calling, interface changes, connection loss, adding clients and groups, strategies, listeners and waits with 2-3 clients, some answers held back; all combinations of quorum, time-out, grace period and the times at which 2-3 (4) clients satisfy the condition',
  'Combined views are cached; whether they are refreshed depends on what was read or changed before.',
  [RCL, RES], [('container', 'katcp/resource_client.py KATCPClientResourceContainer'), ('group', 'katcp/resource_client.py ClientGroup, GroupRequest, GroupResults')],
  'stateless exploration of all bounded histories on real containers and resources against scripted devices', 'model_checking',
  'Aggregate sensors of the same name in several clients and names that collide when escaped are not claimed.')

P('C20', 'Servers and clients can be started, stopped, joined and restarted safely',
  'Whatever threads start, stop, wait for and join a server, a client or an event-loop manager that runs in its own thread, and whatever requests are going on: once stop() was called on a running one it is not running, its port and connections are closed (server clients get #disconnect), every future of stop() is resolved and its callback was called exactly once in the event loop, join() returns, no thread is left, and it can be started again and works, without doing anything left over from the previous run. Starting what runs already, or a server whose port is in use, is refused and leaves everything as it was; stopping what is stopped is harmless. start(timeout) and the wait_...() methods return no later than their time-out, with True exactly if the condition holds.',
  ['schedules', 'histories'], 'all schedules with up to 2 (3) pre-emptions or unforced switches of one or two threads doing 1-5 calls each (start, stop, wait for the future, join, requests, halt, connection loss) on servers in all three concurrency configurations and on clients against a scripted server; all sequences of 4 (5) calls by one thread',
  'Start and stop race with the thread of the event loop; the tests stop things in one order only.',
  [IOM, SERVER, CLIENT], [('managed loop', 'katcp/ioloop_manager.py IOLoopManager'), ('server', 'katcp/server.py KATCPServer.start, stop, join, MessageHandlerThread'), ('client', 'katcp/client.py DeviceClient.start, stop, join, wait_running')],
  'stateless exploration of all schedules with bounded pre-emption on the real code in virtual threads', 'model_checking',
  'Starting in one thread while another one starts or stops the same client, and callbacks of requests made while a client is being stopped, are not claimed. Code of ioloop_manager carries scheduling points before every statement, other modules at locks, events and add_callback.')

P('C24', 'What a monitoring client shows converges to what the device has',
  'A client resource connected to a device server tracks it through everything that happens: whatever sequence of sensor updates (from any thread), sensors and whole interfaces appearing, changing and vanishing, strategies chosen before or after the sensor exists, waits and requests, cut connections and server stops and starts takes place, the client becomes synced again once the device can be reached; then it has exactly the sensors, with name, type, description and units, and the requests of the device, every sensor is sampled with the strategy last chosen for it, and sensors sampled with auto or event show the status and value of the device (auto: and the time stamp of the last update). Listeners hear only readings that the sensor really had, in order, the last being the one shown, and (auto, undisturbed) every update once. Requests and waits always end: a request succeeds with its own arguments and informs, and fails only if the connection or the device was disturbed; a wait succeeds only for a value that occurred. At every moment is_connected, synced and state agree. Once a client has left, no strategy of it is attached to any sensor, old or new. Readings of every sensor type, value, status and parameter arrive unchanged, polled or sampled. All this for protocol 4, 5.0 and 5.1.',
  ['histories', 'schedules', 'configurations'], 'all histories of depth 3-4 (4-5 thorough) over alphabets of 5-8 operations (updates in and out of the loop, cut, stop, start, add, remove, replace, strategies, requests, waits, time), one of them followed by the next after 1, 3 or 8 steps of the event loop instead of being digested; protocol 4, 5.0, 5.1; the server queueing or not; every sensor type with all statuses and a set of extreme values',
  'The tests connect parts to mocks or run one fixed history; convergence must hold after every sequence and timing of disturbances.',
  [SERVER, CLIENT, INS, RES, RCL, SAMP, 'katcp/core.py'], [('client side', 'katcp/resource_client.py KATCPClientResource, katcp/inspecting_client.py InspectingClientAsync'), ('device side', 'katcp/server.py DeviceServer, katcp/sampling.py'), ('between', 'katcp/client.py AsyncClient')],
  'stateless exploration of all bounded histories of the real client and server together', 'model_checking',
  'Readings are compared at rest; the period and differential strategies only for being in force. The client notices changes of the interface by the interface-changed inform, which the scenario sends as the documentation asks of devices.')

P('C25', 'Calls from other threads run once in the event loop and are answered',
  'A function or object wrapped for use from other threads (IOLoopThreadWrapper, ThreadSafeMethodAttrWrapper and its subclasses, make_threadsafe() of clients, sync_with_ioloop() of resources, enable_thread_safety()) behaves for every calling thread like the unwrapped one: the call is executed exactly once, in the thread of the event loop, with the given arguments, and its result or exception is given to the caller, in the loop thread directly and in other threads as soon as the call (and the future it returned) is done. Blocking wrappers give up with a time-out error at the given or default time-out and not earlier; attributes that are not callable are read and set unchanged. request_check() sends the request with the given arguments, message id and time-out and raises exactly if it failed.',
  ['schedules', 'inputs'], 'all schedules with bounded pre-emption of 1-2 calling threads and the loop thread over all kinds of callables (plain, coroutine, raising, slow, never answered), time-outs, wrapped clients, resources, containers and groups',
  'Calls, answers and time-outs of several threads interleave; tests make one call at a time.',
  [IOM, CLIENT, RES, RCL], [('wrappers', 'katcp/ioloop_manager.py IOLoopThreadWrapper, katcp/resource.py ThreadSafeKATCPClientResourceWrapper'), ('client', 'katcp/client.py make_threadsafe, make_threadsafe_blocking, DeviceClient.enable_thread_safety, request_check')],
  'stateless exploration of all schedules with bounded pre-emption on the real code in virtual threads', 'model_checking',
  'A call that finishes at the very moment of the time-out, a time-out of 0, and calls made while the loop is being stopped are not claimed.')

P('C27', 'Sampling requests report the truth and are all-or-nothing',
  'Every sensor-sampling request gets one reply. A legal one sets exactly the named strategy with its parameters on exactly the named sensors (several only if the server has bulk sampling) of the requesting client, gives ok with the names, strategy and parameters now in force, and leads to one immediate update per sensor before the reply; any other one (unknown sensors or strategies, wrong number of parameters, periods and differences that are not finite, positive numbers or not suitable for the type of the sensor, strategies the protocol version lacks) gives fail and changes nothing, not even for some of the named sensors. A query tells the strategy in force for this client and changes nothing, and sensor-sampling-clear removes all strategies of this client.',
  ['inputs', 'histories', 'configurations'], 'all sequences of 2-3 (3-4) requests by 1-2 clients over alphabets of 11-55 legal and illegal requests on servers of protocol 4.0, 5.0 and 5.1, some sent before the previous reply; after each request every client queries every sensor, at the end sensors are changed and updates observed',
  'Whether a refused request leaves traces depends on what was set before and on which part of it is illegal.',
  [SERVER, SAMP], [('request', 'katcp/server.py DeviceServer.request_sensor_sampling, _handle_sensor_sampling, _handle_bulk_set_sensor_sampling, request_sensor_sampling_clear'), ('strategies', 'katcp/sampling.py SampleStrategy.get_strategy')],
  'bounded-exhaustive exploration of request sequences on the real server in lock step with a table', 'model_checking',
  'A differential-rate difference of 0 may be accepted or refused. The texts of failures are not checked.')

P('C28', 'Fake clients behave like clients of a real server',
  'A fake inspecting client, resource or container that was given sensors and request handlers has, once synced, exactly these sensors and requests (and help and sensor-list), with the latest definitions, whenever they were added or redefined, and each request it has a handler for gets from it the reply, informs and message id that a real client gets from a real server with the same handler: also when the handler fails, raises, returns a future or is given illegal arguments. Invalid sensors and undocumented handlers are refused without effect.',
  ['inputs', 'histories', 'configurations'], '9 styles of handlers x 15 argument lists x 4 message-id modes x 2 client classes and 9 sensor types in all notations, compared with a real client of a real server; all histories (depth 3, 4 thorough; containers 2, 3) of adding and redefining sensors and handlers, requests and loop iterations',
  'The tests use one handler object and never let a handler fail.',
  ['katcp/fake_clients.py'], [('fake client', 'katcp/fake_clients.py FakeAsyncClient.future_request, FakeInspectingClientManager'), ('fake resources', 'katcp/fake_clients.py fake_KATCP_client_resource_factory, fake_KATCP_client_resource_container_factory')],
  'differential exhaustive enumeration against the real client and server, exhaustive exploration of histories', 'model_checking',
  'Time-outs, lost connections, sensor values and requests without a handler (always ok) are not simulated by the fakes and not claimed.')
