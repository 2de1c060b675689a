"""What is claimed: one entry per property; the source of properties.jsonl,
MANIFEST.json and the texts in the evidence files."""

META = {}
NA = {}

SRC = 'src_py/hat/event/'
TECH = 'path-sensitive abstract interpretation of the Python syntax tree'

COMMON = [
    'the analysed tree is src_py/hat/event under /repo; libraries it imports '
    '(hat.aio, hat.drivers.chatter, hat.sbs, hat.json, lmdb, asyncio) behave '
    'as documented',
    'calls into those libraries may raise any Exception, every await may be '
    'cancelled; memory errors and signals are not considered',
    'attributes are only rebound through the analysed package',
]


def prop(pid, title, statement, over, text, tests, files, mech, how,
         state=(), observe=(), assume=(), na=None, tech=TECH):
    META[pid] = dict(
        title=title, statement=statement, over=over, text=text, tests=tests,
        files=[SRC + f if '/' in f and not f.startswith('schemas') or
               f.endswith('.py') else f for f in files],
        mech=[dict(name=a, where=SRC + b) for a, b in mech],
        state=[dict(name=a, meaning=b, where=SRC + c) for a, b, c in state],
        observe=list(observe), explanation=how, tech=tech,
        assumptions=[*COMMON, *assume])
    if na:
        NA[pid] = na


# C: eventer protocol --------------------------------------------------------

prop('C01', 'Event notifications reach exactly the clients that asked for them',
     'Whenever a batch of events is announced to the connected eventer '
     'clients, every connected client that asked for that kind of '
     'announcement (immediate or persisted) is sent exactly those events '
     'whose type its subscription matches and, if it restricted itself to '
     'one server, that carry that server id. The events of one notification '
     'keep the order in which they were announced; no matching client or '
     'event is passed over and nothing is sent to a client with no matching '
     'event.',
     ['inputs', 'histories'],
     'any set of connected clients with any subscriptions, server ids and '
     'persisted flags; any batch of events',
     'tests announce a few hand-picked batches to one or two clients; the '
     'filter must be right for every combination of the three conditions and '
     'for every number of clients and events',
     ['eventer/server.py'],
     [('notification fan-out', 'eventer/server.py notify_events'),
      ('per connection send', 'eventer/server.py _notify_events')],
     'All paths of notify_events (spawned senders inlined) are enumerated '
     'over abstract values. Rules: the destination of every '
     'notification send is a key of the table of connected clients; every '
     'value in the message is the encoding of an element of the given '
     'events; on every path each such element passed the subscription test '
     'and the server-id test of that very client and the client passed the '
     'persisted test; no iteration over clients or events ends without the '
     'element being handed on unless one of those tests failed; containers '
     'in between keep order and are drained.',
     state=[('connected clients', 'connection to what the client asked for',
             'eventer/server.py')],
     observe=['HatEventer.MsgEventsNotify messages on each connection'])

prop('C02', 'Acknowledged notification waits for exactly its own recipients',
     'A notification made with acknowledgement asks every recipient for an '
     'acknowledgement and does not complete before each of them has '
     'acknowledged that very notification or has disconnected; an '
     'acknowledgement or the end of another client\'s connection never ends '
     'the wait. When a client disconnects, every wait for that client ends. '
     'A notification made without acknowledgement does not ask for one.',
     ['schedules', 'histories', 'fault_sequences'],
     'any interleaving of notifications, acknowledgements and disconnects of '
     'any number of clients',
     'tests acknowledge with one client at a time; a lost or misattributed '
     'acknowledgement needs particular interleavings of several clients',
     ['eventer/server.py'],
     [('pending acknowledgements', 'eventer/server.py _notify_events'),
      ('resolution', 'eventer/server.py _connection_loop')],
     'Over the graphs of notify_events and of the connection handler: the '
     'last-flag of each send agrees with the request; the future is '
     'registered under (connection, conversation of that send) with no '
     'suspension in between and is awaited; spawned senders are awaited '
     'with ALL_COMPLETED semantics; acknowledgements resolve only the entry '
     'of their connection and conversation; the teardown resolves every '
     'entry whose key is the closing connection and only those.',
     observe=['completion of Server.notify_events(with_ack=True)'],
     assume=['chatter.Connection.send does not suspend after it has queued '
             'the message'])

prop('C03', 'Eventer sessions: no service before handshake, clean end',
     'A client is served (requests, notifications, listed as connected) only '
     'after its first message was an init request, the connection callback '
     'accepted it and it was told so; a refused client is told once, is '
     'never registered and is never served. What is recorded for a session '
     'is exactly what the client asked for. When a session ends for any '
     'reason the connection is closed, the client is no longer listed, and '
     'its end is announced exactly once.',
     ['inputs', 'schedules', 'fault_sequences'],
     'any message sequence, any outcome of the callbacks, cancellation and '
     'connection loss at every await',
     'tests use well behaved clients; the teardown must hold for an '
     'exception or cancellation at every await of the handler',
     ['eventer/server.py'],
     [('connection handler', 'eventer/server.py _connection_loop')],
     'All paths of the connection handler, including an exception or '
     'cancellation at every call and await. Rules: registration, init '
     'response and connected callback are guarded by the init request type; '
     'further receives are preceded by the success response; the error '
     'response leads to no receive and is not preceded by registration; '
     'exactly one init response on the conversation of the request; no '
     'suspension between registration and response; recorded fields are the '
     'received ones; every end passes close, removal and exactly one '
     'disconnected callback iff the client had been registered.',
     observe=['HatEventer.MsgInitRes', 'get_conn_infos',
              'connected and disconnected callbacks'])

prop('C04', 'Every eventer request is processed once and answered once',
     'Each register or query request received from a connected client is '
     'handed exactly once, complete and in order, to the server\'s callback '
     'together with the session it came from. A query, and a registration '
     'that asked for a response, gets exactly one response on its own '
     'conversation carrying the callback\'s result (an absent result is '
     'reported as failure, an empty one as success); a registration that '
     'did not ask gets none. A message of unexpected type ends the session '
     'instead of being ignored.',
     ['inputs', 'histories'],
     'any sequence of messages, any callback result',
     'tests send single requests; answers must match for every sequence and '
     'result, including empty and absent ones',
     ['eventer/server.py'],
     [('request dispatch', 'eventer/server.py _connection_loop'),
      ('register', 'eventer/server.py _process_msg_register'),
      ('query', 'eventer/server.py _process_msg_query')],
     'From every program point where a received message is known to be a '
     'request of a kind, all paths to the next receive: they pass exactly '
     'one callback call whose arguments are the decoded data of that '
     'message, and exactly one response send (none when last is set) with '
     'the conversation of that message and the encoded callback result, '
     'guarded by the is-None test. Paths from a receive that match no known '
     'kind end by exception.',
     observe=['HatEventer.MsgRegisterRes', 'HatEventer.MsgQueryRes'])

prop('C05', 'Eventer clients always know the current server status',
     'Every change of the server status is recorded and sent to every '
     'connected client; a client that fails does not keep others from being '
     'notified. A newly connected client is told the status valid at the '
     'moment it becomes registered, so no change is lost in between. Setting '
     'the current status again sends nothing.',
     ['schedules', 'histories', 'fault_sequences'],
     'any interleaving of status changes with connects and failures',
     'a status change in the middle of a handshake or next to a failing '
     'client is not exercised',
     ['eventer/server.py'],
     [('status change', 'eventer/server.py set_status'),
      ('handshake', 'eventer/server.py _connection_loop')],
     'set_status: every path either found the status unchanged or stores it '
     'before walking the whole table of connections, with one send per '
     'connection; exceptions of a send do not leave the loop. Handshake: '
     'the status in the init response is read in the same step (no '
     'suspension) in which the client is registered.',
     observe=['HatEventer.MsgStatusNotify', 'HatEventer.MsgInitRes'])

prop('C06', 'Every eventer client request ends with its own response',
     'A register or query call of the eventer client sends exactly one '
     'request carrying exactly the given events or parameters, and returns '
     'the response the server gave to that very request, whatever the order '
     'in which responses arrive; a registration without response asks for '
     'none. When the connection ends, every pending call ends with '
     'ConnectionError and no later call starts to wait. A response nobody '
     'waits for any more (its call was cancelled) is ignored and does not '
     'disturb other calls.',
     ['inputs', 'schedules', 'fault_sequences'],
     'any number of concurrent calls, any order of responses, cancellation '
     'of calls and connection loss at every await',
     'tests make one call at a time; mixing up, losing or never ending '
     'calls needs particular interleavings of calls, responses and '
     'connection loss',
     ['eventer/client.py'],
     [('waiting for a response', 'eventer/client.py Client._wait_conv_res'),
      ('matching', 'eventer/client.py Client._receive_loop')],
     'Register and query: one send per path with the given data; a wait is '
     'registered under the conversation of that send iff a response was '
     'asked for, with no suspension in between and after a test that the '
     'connection is still open made since the send; the awaited future is '
     'what is returned and its registration is removed on every path. '
     'Receive loop: every response path resolves the future registered for '
     'its own conversation unless there is none or it is done, with the '
     'decoded data; it then goes on receiving; every end of the loop closes '
     'the client and then fails every future that is not done.',
     observe=['results of Client.register and Client.query'],
     assume=['chatter.Connection.send does not suspend after it has queued '
             'the message'])

prop('C07', 'Eventer client processes notifications in order, then acknowledges',
     'Each status or events notification received by the eventer client is '
     'passed to the corresponding callback exactly once, complete and in '
     'order, and the callback finishes before the next message is processed. '
     'The status property always holds the status received last, also while '
     'the status callback runs. A notification is acknowledged if and only '
     'if that was asked for, on its own conversation and only after its '
     'callback finished without error.',
     ['inputs', 'histories', 'schedules'],
     'any sequence of messages; callbacks that suspend, fail or are '
     'cancelled',
     'tests use immediate callbacks that succeed; overtaking and premature '
     'acknowledgement show only with slow or failing callbacks',
     ['eventer/client.py'],
     [('notifications', 'eventer/client.py Client._receive_loop')],
     'All paths of the receive loop from the point where the type of a '
     'message is known to the next receive: exactly one callback call with '
     'the decoded data (for events every element of the message, in order), '
     'awaited in the loop itself; the status is stored before the callback; '
     'the acknowledgement is sent iff the last-flag is not set, with the '
     'conversation of the message, after the callback and not after its '
     'failure; messages of unknown type end the loop.',
     observe=['status and events callbacks', 'HatEventer.MsgEventsAck'])

prop('C08', 'An eventer client exists only after a successful handshake',
     'Connecting sends exactly one init request with exactly the given '
     'name, token, subscriptions, server id and persisted flag, and returns '
     'a client only when the response to that very request was a success; '
     'the client then knows the status of the response and receives '
     'messages. A refusal is raised as EventerInitError. Whenever '
     'connecting fails or is cancelled after the connection was made, the '
     'connection is closed.',
     ['inputs', 'fault_sequences'],
     'any arguments, any response, failure or cancellation at every await',
     'tests use a well behaved server; cleanup must hold for failure or '
     'cancellation at every step',
     ['eventer/client.py'],
     [('handshake', 'eventer/client.py connect')],
     'All paths of connect: one send of the init request per connection '
     'made; each field of the request is the given argument (optional ones '
     'guarded by the is-None test); every successful end is preceded by '
     'tests of response type, conversation and success tag, the recorded '
     'status and one start of the receive loop; the refusal branch raises '
     'EventerInitError; from the point where the connection exists every '
     'exceptional end passes an awaited close.',
     observe=['HatEventer.MsgInitReq', 'result of connect'])

prop('C09', 'Adminer requests get exactly one own response and keep the configuration',
     'Every logging configuration request is handed once to the server\'s '
     'callback and answered exactly once on its own conversation: with the '
     'result, or with an error when there is no callback or it failed, '
     'after which the session goes on. The client returns the response to '
     'that very request or raises the error reported for it; lost '
     'connections end every pending request, and a response nobody waits '
     'for is ignored. The server reports the configuration applied last; '
     'one that could not be applied is reported and not kept.',
     ['inputs', 'schedules', 'fault_sequences'],
     'any sequence of requests, any callback outcome, cancellation and '
     'connection loss at every await',
     'tests make one request at a time with one outcome',
     ['adminer/client.py', 'adminer/server.py', 'server/adminer_server.py'],
     [('client', 'adminer/client.py Client._receive_loop'),
      ('server', 'adminer/server.py Server._connection_loop'),
      ('configuration', 'server/adminer_server.py AdminerServer')],
     'Client: as for C06, plus the type of the response is checked against '
     'the one expected. Server: from the point where a request type is '
     'known every path passes exactly one response of the matching type '
     'with the conversation of the request; success only after the callback '
     'returned and with its result, error only after an exception or '
     'without callback. AdminerServer: dictConfig precedes the store of the '
     'configuration on every path and its failure leads to no store.',
     observe=['results of the adminer client calls'])

prop('C10', 'Event ids of an engine only grow and are unique',
     'An engine continues after the last event id its backend knows for its '
     'server. Every register request gets one session id, larger than all '
     'before, and one timestamp shared by all its events; its events get '
     'consecutive instance ids in the order they are made and no id is '
     'given to two events. Each event keeps the type, source timestamp and '
     'payload it was registered with, and the events reach the backend '
     'complete and in the order of their ids.',
     ['inputs', 'histories', 'schedules'],
     'any history of register requests and restarts, any modules',
     'tests register few requests with few events in a single run',
     ['server/engine.py'],
     [('ids', 'server/engine.py Engine._create_event'),
      ('sessions', 'server/engine.py Engine._process_sessions')],
     'Every store to the last id in the module is decided: the initial one '
     'is the result of get_last_event_id(server_id) and precedes the start '
     'of the loop; every other one has the same server and either the next '
     'session or the same session and a larger instance. Every Event '
     'construction uses the id of a store that precedes it without a '
     'suspension or another store, and is followed by a new store before '
     'the next construction. On all paths of session processing the session '
     'changes once and before the first event, the timestamp is the now() '
     'taken once, and every event made is put at the end of the container '
     'given to Backend.register.',
     state=[('last id', 'id of the last event made', 'server/engine.py Engine._last_event_id')],
     observe=['events given to Backend.register'])

prop('C11', 'Every register request is answered with its own events',
     'Engine.register queues the given source and events as one request and '
     'returns what that request is resolved with; without events it returns '
     'no events. Requests are served one at a time in the order taken, each '
     'processed once with its own source and events and registered once; '
     'then the caller gets the first of the registered events, one for each '
     'event it gave, or None if the backend gave None. When the engine '
     'stops, or the request can not be queued, the call fails and never '
     'waits forever.',
     ['inputs', 'schedules', 'fault_sequences'],
     'any number of concurrent callers, failure or cancellation at every '
     'await',
     'tests await few requests one after another',
     ['server/engine.py'],
     [('requests', 'server/engine.py Engine._register_loop')],
     'All paths of register and of the loop: the queued tuple holds the '
     'own future, source and events; each request taken is processed with '
     'its own parts, and its session is registered once before the future '
     'is set; the result is the prefix of the backend result of the length '
     'of the own events (or None under the test for None); futures are set '
     'only when not done; every end of the loop closes engine and queue, '
     'drains the queue after closing it and sets every future taken.',
     observe=['result of Engine.register'])

prop('C12', 'Modules get every matching event of a session with its source',
     'In every session each module is told on_session_start with the id of '
     'the session before any module processes an event, and on_session_stop '
     'once after the last. Every event of the session - registered or '
     'produced by a module - is processed by exactly those modules whose '
     'subscription matches its type, together with the source that '
     'registered or produced it, and all events a module returns become '
     'events of the session. Calls are awaited before the session goes on.',
     ['inputs', 'histories'],
     'any modules, subscriptions and produced events, any depth of rounds',
     'tests use one or two modules with fixed subscriptions and few rounds',
     ['server/engine.py'],
     [('sessions', 'server/engine.py Engine._process_sessions')],
     'All paths of session processing over a symbolic module table and '
     'event list: complete walks (no element skipped or loop left early) '
     'call on_session_start, process, on_session_stop in that order; every '
     'process call is under a positive test of subscription.matches(type) '
     'of that module and event and every skipped pair under a negative one; '
     'the source argument is tied to the event by where the pair was made; '
     'every event made is put in a container that is walked next, and every '
     'element of a module result is made into an event.',
     observe=['calls of Module.on_session_start, process, on_session_stop'])

prop('C13', 'An engine announces start and stop and lives and dies with its modules',
     'The first request an engine serves is its own STARTED event and the '
     'last events it registers are its STOPPED event, however it stops. '
     'Every configured module is created with its own configuration, the '
     'engine and a source that is its own, and is served by the engine; all '
     'modules exist before any request is served. A module that closes '
     'closes the engine, the engine closes its modules, and a failed '
     'creation closes everything created so far and raises.',
     ['inputs', 'schedules', 'fault_sequences'],
     'any module configurations, failure or cancellation at every await',
     'tests create engines whose modules all start well',
     ['server/engine.py'],
     [('lifecycle', 'server/engine.py create_engine')],
     'All paths of create_engine: the STARTED request is queued before any '
     'module is created and before the loop starts; each configuration '
     'leads to one create call and one table entry with its own source, '
     'with close-on-cancel and close-on-done tasks spawned before the next; '
     'exceptional paths pass the awaited close and re-raise. All ends of '
     'the loop pass an awaited registration of the STOPPED event after '
     'which no other registration follows.',
     observe=['events given to Backend.register', 'Module.async_close'])

prop('C14', 'The engine runs only while this server is the active one',
     'An engine is created only after the remote servers were seen not '
     'active; STARTING is set on the eventer server before it is created '
     'and OPERATIONAL, with that engine, after. When a restart is asked for, '
     'the engine closes or the runner ends, STOPPING is set, then the '
     'engine is closed, the backend flushed and STANDBY set, in that order '
     'and not cut by cancellation; a restart then creates another engine '
     'and a closed engine ends the runner. A synced state told by a client of a '
     'remote server is registered as a synced event of this server and that '
     'one while there is an engine.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every order of activity changes, restart requests, engine failures '
     'and cancellations',
     'tests drive the runner through a few orders with long pauses',
     ['server/engine_runner.py'],
     [('activation', 'server/engine_runner.py EngineRunner._run')],
     'All paths of the runner loop: creation is preceded by a negative test '
     'of remote activity since the last wait for it; STARTING precedes and '
     'OPERATIONAL with the created engine follows creation; the waited '
     'tasks are engine closing and restart request and the first ends the '
     'wait; all ways from a created engine pass '
     'STOPPING, async_close of it, flush, STANDBY in order with no '
     'cancellation point between; set_synced builds the event from its own '
     'arguments and the configuration.',
     observe=['statuses set on the eventer server', 'Engine.async_close'])

prop('C15', 'The server part hands requests to the engine and tells status and peers',
     'set_status rejects OPERATIONAL without an engine and an engine with '
     'another status, and otherwise stores the engine before the status is '
     'told. Registrations are handed to the current engine '
     'with a source of kind EVENTER identifying the connection and give '
     'None without an engine, queries go to the backend; a client with '
     'another token is refused. For each client a CONNECTED event is '
     'registered when it connects and DISCONNECTED when it leaves if '
     'there is an engine then.',
     ['inputs', 'schedules'],
     'any clients, tokens, engines and order of calls',
     'tests use one engine and few clients',
     ['server/eventer_server.py'],
     [('adapter', 'server/eventer_server.py EventerServer')],
     'All paths of the wrapper: arguments of eventer.listen; set_status '
     'raises exactly under the mismatch of engine presence and status; the '
     'engine store precedes Server.set_status on every way; the callbacks '
     'pass their own arguments to Engine.register, Backend.query and '
     'Server.notify_events; the event type and payload of the '
     'CONNECTED/DISCONNECTED events and their source are built from the '
     'configuration and the connection.',
     observe=['calls of Engine.register, Backend.query'])

prop('C16', 'Every usable remote server of the group is followed, by one client at a time',
     'After each monitor state the servers followed are exactly the '
     'components of that state that are not this one, have its group, tell '
     'an integer id, host and port, and whose token (absent or a string) '
     'equals the configured one if one is configured. Each has one loop '
     'that, while it is known, connects to its address and id with the '
     'local id, token and backend, waits out the connection, closes the '
     'client before the next, and retries failures after a delay. The '
     'runner is remote active exactly while some followed client last '
     'reported a status other than STANDBY, and tells each change.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'any sequence of monitor states, connection failures and statuses, '
     'cancellation at every await',
     'tests follow one or two servers through few states',
     ['server/eventer_client_runner.py'],
     [('following', 'server/eventer_client_runner.py '
       'EventerClientRunner._client_loop')],
     'Selection: every record put in the known set is built from a '
     'component of the state under each of the seven conditions, and every '
     'component not put there failed one of them. Loops: one is spawned '
     'exactly for known servers not in the served set, which gains them '
     'without a wait and loses them when the loop ends. Loop: creation '
     'only under membership in the known set tested since the last wait; '
     'uncancellable close on all ways; activity cleared on all ways; the '
     'activity set, flag and notification follow the status on all paths '
     'of the status callback.',
     observe=['calls of create_eventer_client',
              'notifications of remote activity'])

prop('C17', 'Synchronising takes over every missing persisted event, once and by session',
     'On connecting, the persisted events of the remote server after the '
     'last one known are queried page after page until no more follow, '
     'and all are registered in the local backend in order, whole sessions '
     'together. Notifications arriving meanwhile are kept, then registered '
     'in order except events already taken; later ones are registered '
     'at once. CONNECTED is told (callback and remote registration) before '
     'the first query, SYNCING with the first events, SYNCED with the count '
     'after the rest; a failure while synchronising closes the client, and '
     'a server becoming OPERATIONAL is told the state again.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'any pages of results, notifications at any await, connection loss '
     'and errors at every await',
     'tests synchronise a few events of one or two sessions in one page',
     ['server/eventer_client.py'],
     [('synchronisation', 'server/eventer_client.py '
       'EventerClient._synchronize')],
     'Paths of _synchronize and the callbacks with loop-carried values: '
     'each query is for persisted events of the remote id after the last '
     'known id, then the id of the last gathered event; a query follows '
     'exactly when the last result has more; each result is added to the '
     'gathered events, which leave them only into a registered batch, '
     'from the front, ended exactly where the session changes; the rest is '
     'registered after the loop; kept notifications are registered from the '
     'front filtered by id greater than the last; keeping ends without a '
     'wait after it is seen empty; the states, their order, their payload, '
     'closing on failures.',
     observe=['Client.query', 'Backend.register', 'Client.register'])

prop('C18', 'The server is composed, kept together and taken down in order',
     'The runner creates the parts the configuration names, each on what '
     'it needs: the backend first, then eventer server, adminer server '
     'if configured, and monitor component with eventer client runner if '
     'configured, an engine runner otherwise; any of them closing closes '
     'the runner. At the end every part is closed, users before what they '
     'use, with a last flush of the backend before the eventer server '
     'closes, whatever failed or was cancelled. Backend events are '
     'announced as registered or persisted, monitor states reach the '
     'client runner, synchronisation states the engine runner, a close '
     'request closes the engine runner, and a reset request makes the '
     'server not ready until the blessing is gone or a timeout passed.',
     ['inputs', 'schedules', 'fault_sequences'],
     'any configuration, failure of any step, cancellation at every await',
     'the main runner has no tests',
     ['server/main_runner.py'],
     [('composition', 'server/main_runner.py MainRunner._start'),
      ('teardown', 'server/main_runner.py MainRunner._stop')],
     'All paths of the runner with start and stop inlined: each created '
     'part is stored without a wait and bound to the group before the next '
     'wait; arguments are traced to the configuration and the other parts; '
     'from each creation every way to an end passes its async_close except '
     'when another close raises; order of closes and the flush on all ways; '
     'no cancellation point in between; callbacks hand on their arguments '
     'on all paths; not ready, bounded wait for the blessing and ready '
     'follow each reset request.',
     observe=['calls of async_close', 'Component.set_ready'])

prop('C19', 'A component stays connected to the active server of its group',
     'The server a component connects to is a monitored component of the '
     'server group that holds the blessing (its request token is set and '
     'equals the response token) and publishes an int server id, str host, '
     'int port and a str or absent server token, equal to the client token '
     'if one is configured; such a server is always used, and every change '
     'of it reaches the connecting loop, which ends the former connection '
     'before the next and takes the newest. For each connection the runner '
     'callback is called once with the component, the server data and the '
     'client; runner and then client are closed when either closes, a lost '
     'or refused connection is made again after the reconnect delay, and a '
     'runner that closes while the connection is open closes the '
     'component, as does any failure. The callbacks given by the user are '
     'called with the component and what was received, and the user\'s '
     'eventer arguments, server id included, are kept.',
     ['inputs', 'schedules', 'fault_sequences'],
     'any monitor state, change at any await, failure of connection, '
     'runner or callback',
     'tests run a component against a few prepared monitor states',
     ['component.py'],
     [('selection', 'component.py Component._on_state'),
      ('connection', 'component.py Component._client_loop')],
     'All paths of the state callback, monitor runner callback and both '
     'loops with local helpers inlined: tests that hold about the same '
     'element where server data is made, and no other way to pass an '
     'element over; data traced field by field to where it is published; '
     'store and put of the same value without a wait between; the client '
     'loop started with the value taken last and its group left before the '
     'next start; a runner made on every way from a connection, closes '
     'following on every way and shielded from cancellation; the pause '
     'between attempts; close on every failure; arguments of callbacks.',
     observe=['eventer.client.connect', 'runner_cb'])


# E: LMDB backend ------------------------------------------------------------

prop('C20', 'The LMDB backend takes exactly the valid events of a batch',
     'An open backend takes an event of a registered batch if and only if '
     'its id is newer than the last kept for its server, its timestamp is '
     'not older than the last kept and the configured conditions match it; '
     'what is skipped does not stop the rest of the batch and an event kept '
     'by the latest or timeseries database gets its references, last id and '
     'last timestamp kept with it, while the reference to a latest event it '
     'replaces is removed. A batch becomes pending as a whole, without a '
     'point where a flush may split it, is then announced once through the '
     'registered-events callback, and returned. A closed backend takes '
     'nothing and raises BackendClosedError.',
     ['inputs', 'schedules', 'histories'],
     'any batch, any earlier history, any interleaving with flushes',
     'tests register short valid batches on an idle backend',
     ['backends/lmdb/backend.py'],
     [('registration', 'backends/lmdb/backend.py LmdbBackend.register')],
     'All paths of register with helpers of the module inlined: tests about '
     'the same element that hold where the databases are called and no '
     'other way to skip an element; references traced from the results of '
     'the databases to the reference database; no await between the first '
     'addition and the queueing of the batch; one awaited announcement of '
     'the parameter after it.',
     observe=['Backend.register', 'registered_events_cb'])

prop('C21', 'A flush writes everything registered, in one transaction',
     'A flush takes, at one moment and before it waits for anything, all '
     'that registration left pending: last ids and timestamps, latest '
     'events and their types, timeseries events, references and the '
     'batches. All of it is written to its own database by a single write '
     'transaction in the executor, which is neither committed by hand nor '
     'survived when a part fails, so a crash at any point leaves all or '
     'nothing. Only after the transaction has ended well is each batch '
     'announced through the flushed-events callback, once and in the order '
     'of registration.',
     ['schedules', 'crash_points', 'histories'],
     'any pending changes, registration at any await, failure of any '
     'database operation',
     'tests cannot stop the process inside a flush and see the usual order',
     ['backends/lmdb/backend.py', 'backends/lmdb/latestdb.py',
      'backends/lmdb/systemdb.py', 'backends/lmdb/refdb.py',
      'backends/lmdb/timeseriesdb.py', 'backends/lmdb/environment.py'],
     [('flush', 'backends/lmdb/backend.py LmdbBackend._flush'),
      ('transaction', 'backends/lmdb/backend.py _ext_flush')],
     'Register is analysed to learn which containers become pending and '
     'what they hold; on all paths of the flush with the databases inlined '
     'each of them is replaced by a fresh one before the first wait, its '
     'elements are walked over and put through a cursor of the database '
     'that belongs to the kind, every cursor and put belongs to the one '
     'write transaction, and nothing is written after a failure or after '
     'its end; announcements follow its end, are awaited and take the '
     'batches from the front.',
     observe=['lmdb.Cursor.put', 'flushed_events_cb'])

prop('C22', 'A flush request ends after the write, the backend never leaks',
     'LmdbBackend.flush returns only after a write that began after the '
     'request, and raises BackendClosedError if the backend closes first; '
     'no request waits forever, whatever fails or is cancelled. Without '
     'requests a write happens every configured flush period, cleanup runs '
     'every cleanup period and again at once while it is not complete. '
     'When either loop ends or fails the backend closes, what is pending '
     'is written before the environment closes, neither being cut by '
     'cancellation, and a backend that could not be created leaves no open '
     'environment.',
     ['schedules', 'fault_sequences', 'histories'],
     'requests and cancellation at any await, failure of any operation',
     'tests flush an idle backend and close it in the usual way',
     ['backends/lmdb/backend.py'],
     [('requests', 'backends/lmdb/backend.py LmdbBackend._flush_loop'),
      ('cleanup', 'backends/lmdb/backend.py LmdbBackend._cleanup_loop'),
      ('creation', 'backends/lmdb/backend.py create')],
     'All paths of flush, of both loops and of create, exception and '
     'cancellation edges included: every request taken from the queue is '
     'kept or answered before the next wait, set_result is reached from a '
     'taken request only across an ended write, every end closes the queue, '
     'drains it and answers what is kept; the wait is bounded by the '
     'configured period and followed by a write; each end passes close, a '
     'last write and async_close of the environment in this order.',
     observe=['Backend.flush', 'Environment.async_close'])

prop('C23', 'The database is used by one thread and nothing is shared with it',
     'Every operation on the LMDB database of a running backend is done by '
     'the single thread of the environment\'s executor, never by the event '
     'loop; functions run there return complete results, not generators '
     'that would read the database later, and no attribute is changed on '
     'one side while the other side may use it. A closed environment runs '
     'nothing, and the database is closed by the same thread before the '
     'executor ends, also if creating it failed.',
     ['schedules', 'fault_sequences'],
     'any interleaving of queries, registration, flushes and cleanup',
     'races and misuse from another thread show up only by chance',
     ['backends/lmdb/environment.py', 'backends/lmdb/backend.py',
      'backends/lmdb/latestdb.py', 'backends/lmdb/refdb.py',
      'backends/lmdb/timeseriesdb.py', 'backends/lmdb/systemdb.py'],
     [('executor', 'backends/lmdb/environment.py Environment.execute'),
      ('end', 'backends/lmdb/environment.py Environment._on_close')],
     'Effect analysis over the call graph of the package: functions that '
     'reach a database operation synchronously may be called by no '
     'coroutine, only handed to the executor; their results may not be '
     'lazy; attributes read or written on either side are collected from '
     'the closures of both sides and compared. Creation, execution and end '
     'of the environment on all paths.',
     observe=['Environment.execute'])

prop('C24', 'The latest database keeps the newest event of each subscribed type',
     'The latest database holds for each event type of its subscription the '
     'newest registered event: an older one never replaces it, one that is '
     'not older always does, is written, and the reference of the replaced '
     'event is told to be removed. A type keeps one reference, different '
     'from those of other types, also after the database is opened again, '
     'and stored events that match conditions and subscription are loaded '
     'under it. A latest query answers with exactly those kept events whose '
     'type matches the asked types.',
     ['histories', 'inputs', 'crash_points'],
     'any order of registered events, any stored content, any subscription '
     'or asked types',
     'tests register a few types in order and reopen a database once',
     ['backends/lmdb/latestdb.py', 'backends/lmdb/conditions.py'],
     [('loading', 'backends/lmdb/latestdb.py ext_create'),
      ('registration', 'backends/lmdb/latestdb.py LatestDb.add'),
      ('query', 'backends/lmdb/latestdb.py LatestDb.query')],
     'All paths of creation, add, query and write: what is put in each '
     'container, under which key and under which facts; which event is '
     'refused is decided by the comparison with the kept one alone; the '
     'reference is drawn from a counter that begins past all loaded ones '
     'and only for a type without one; every returned event passed the '
     'asked types and every kept one that passed is returned.',
     observe=['LatestDb.query'])

prop('C25', 'Server queries give each kept event once, in order of its id',
     'The reference database keeps, for every event of a server, the set of '
     'references to where it is stored: registration adds it in order of '
     'ids, replaced and cleaned up references are removed, and an event '
     'without references is forgotten. A server query answers with the '
     'events of that server after the given one, in order of ids, each only '
     'if one of its references still leads to that same event, first the '
     'stored and then the pending ones, no more than the limit, and tells '
     'truly whether more follow.',
     ['histories', 'inputs', 'schedules', 'crash_points'],
     'any sequence of registrations, removals, flushes and cleanups, any '
     'query parameters, a flush at any await',
     'tests query little data with few limits and never a stale reference',
     ['backends/lmdb/refdb.py'],
     [('registration', 'backends/lmdb/refdb.py RefDb.add'),
      ('write', 'backends/lmdb/refdb.py RefDb.ext_write'),
      ('query', 'backends/lmdb/refdb.py RefDb.query'),
      ('scan', 'backends/lmdb/refdb.py _ext_query_events')],
     'All paths of add, remove, ext_write, ext_cleanup and query with its '
     'executor function: each row is read, changed by what was added and '
     'then by what was removed, and written back or left out only when '
     'empty; the cursor walk begins after the given event, stays in the '
     'server\'s range and limit, takes an event only under equality of ids; '
     'pending changes are captured before the wait, used only below the '
     'limit and after the last id; the cut and more_follows use one limit.',
     observe=['RefDb.query'])

prop('C26', 'Timeseries entries keep their reference and are cleaned within limits',
     'An event is kept in every partition of its type, under the partition\'s '
     'timestamp and its id, exactly where its reference tells; a configured '
     'partition keeps its id over restarts and two partitions never share '
     'one. A cleanup deletes only entries of a partition with a limit that '
     'exceed its duration, size or number of entries, oldest first and never '
     'below the least number of entries, and tells each deleted entry so its '
     'reference and count go with it. Entries that exceed a limit are '
     'deleted, no more than the told number at once, and the cleanup goes on '
     'until none is left.',
     ['histories', 'inputs', 'crash_points'],
     'any sequence of registrations, flushes, restarts and cleanups, any '
     'partitions and limits',
     'tests use a few partitions with one kind of limit at a time and do not '
     'restart with changed configuration',
     ['backends/lmdb/timeseriesdb.py', 'backends/lmdb/backend.py'],
     [('registration', 'backends/lmdb/timeseriesdb.py TimeseriesDb.add'),
      ('write', 'backends/lmdb/timeseriesdb.py TimeseriesDb.ext_write'),
      ('partition ids', 'backends/lmdb/timeseriesdb.py ext_create'),
      ('cleanup', 'backends/lmdb/timeseriesdb.py TimeseriesDb.ext_cleanup'),
      ('references', 'backends/lmdb/backend.py _ext_cleanup')],
     'All paths of add, ext_write, ext_create and ext_cleanup with helpers '
     'inlined: the same timestamp of the event (by the partition\'s order) '
     'is used in the pending entry, the written key and the told reference; '
     'ids come from rows or a counter above all of them; between two '
     'deletions the entry\'s range, the least count and an exceeded limit '
     'are tested again, counting what has been deleted; what is not deleted '
     'falls under no limit; rows of counts and told references follow each '
     'deletion.',
     observe=['ext_create', 'TimeseriesDb.ext_cleanup'])

prop('C27', 'Timeseries queries tell every event asked for, in order and within limit',
     'A timeseries query is answered from the first partition with the asked '
     'order that may hold the asked types, with every stored and pending '
     'event of it that satisfies conditions, the time ranges and types and '
     'follows the last known event, in the asked direction. Never more '
     'events are told than the smaller of the asked and configured limit, '
     'and it is told truly whether more follow. Pending events are told in '
     'order of the partition\'s timestamps, newest first in descending and '
     'after the stored ones in ascending order.',
     ['histories', 'inputs', 'schedules'],
     'any registered events in any order, flushed or pending, and any query '
     'parameters',
     'tests query few events registered in order, flushed or not, with some '
     'of the parameters',
     ['backends/lmdb/timeseriesdb.py'],
     [('query', 'backends/lmdb/timeseriesdb.py TimeseriesDb.query'),
      ('filter', 'backends/lmdb/timeseriesdb.py _Filter'),
      ('pending events',
       'backends/lmdb/timeseriesdb.py _query_partition_changes'),
      ('stored events',
       'backends/lmdb/timeseriesdb.py _ext_query_partition_events_range')],
     'All paths of the filter, of query with the filter as a stand-in, and '
     'of the function run in the executor: each told event passed every '
     'bound and each one left out failed one; the walk over stored rows '
     'begins at one end of the range, moves by one row, ends at the other '
     'end and skips only rows that fail conditions or the filter; walks '
     'over pending events are sorted and leave out only what lies beyond '
     'the range by the right timestamp; the cut and more_follows compare '
     'with the limit the filter has been given, plus one.',
     observe=['TimeseriesDb.query'])

prop('C28', 'What is decoded from a message is what was encoded into it',
     'Every event, register event, query (with any combination of given and '
     'absent parameters), query result, event id, payload of each kind, '
     'status and timestamp that is encoded for a connection is decoded into '
     'an equal value: nothing is lost, exchanged or confused with an absent '
     'value, and event types stay tuples. Encoded values have exactly the '
     'fields and alternatives that the SBS schema declares.',
     ['inputs'],
     'any value of the declared classes',
     'tests encode a few sampled values, usually with all or none of the '
     'optional fields given and never with empty or zero ones',
     ['common/encoder.py', 'common/common.py'],
     [('encoders', 'common/encoder.py event_to_sbs'),
      ('decoders', 'common/encoder.py event_from_sbs'),
      ('queries', 'common/encoder.py query_params_to_sbs'),
      ('timestamp as bytes', 'common/encoder.py timestamp_to_bytes')],
     'Each encoder is composed with its decoder and the composition is '
     'evaluated symbolically over the program text for each alternative of '
     'the argument: every result must reduce to the argument itself with '
     'no path that raises; encoders\' results are compared with the parsed '
     'schema; packed bytes are compared by field layout.',
     observe=['query_params_to_sbs', 'query_params_from_sbs'])

prop('C29', 'What is read from the database is what was written, in order of keys',
     'Each database\'s keys and values are decoded into what was encoded; '
     'sets of references are read back complete, each of its own kind, '
     'whatever their number and mix. Encoded keys compare as bytes as the '
     'keys do as values: by partition, timestamp (negative ones included) '
     'and event id. Decoded events own their payload rather than point into '
     'database memory that is valid only within the transaction.',
     ['inputs', 'histories'],
     'any key and value of the declared types',
     'tests store few small positive timestamps and ids, mostly with one '
     'reference per event, and compare payloads while memory is intact',
     ['backends/lmdb/common.py'],
     [('definitions', 'backends/lmdb/common.py db_defs'),
      ('keys', 'backends/lmdb/common.py _encode_timeseries_key'),
      ('references', 'backends/lmdb/common.py _decode_event_refs'),
      ('events', 'backends/lmdb/common.py _decode_event')],
     'For each database the pair of encoder and decoder from db_defs is '
     'composed and evaluated symbolically: it must reduce to the argument; '
     'byte layouts of keys are derived from the text and compared with the '
     'declared order, widths and signs of fields; the walk of the decoder '
     'of references is followed over layouts that the encoder produces for '
     'each pair of kinds.',
     observe=['db_defs'])

prop('C30', 'Subscriptions stand for exactly the event types of their query types',
     'An event type matches a query type, or a subscription made of several, '
     'only if each of its subtypes equals the corresponding one or meets '
     '\'?\', with any rest of it met by a final \'*\'; the query types a '
     'subscription reports, and unions of subscriptions, match what those '
     'they are made of match. An intersection has no type that is not of '
     'all of them and loses none to \'*\'. Subscriptions are told to be '
     'disjoint just when no event type matches both.',
     ['inputs'],
     'any sets of query types, of any depth, and event types',
     'the implementation is a recursion over trees where a missed pair of '
     'branches shows only for combinations of \'?\', \'*\' and equal names '
     'at the same depth',
     ['common/subscription/common.py', 'common/subscription/pysubscription.py',
      'common/matches.py'],
     [('match of a query type', 'common/matches.py matches_query_type'),
      ('match of a tree', 'common/subscription/pysubscription.py _matches'),
      ('disjointness', 'common/subscription/pysubscription.py _isdisjoint'),
      ('tree', 'common/subscription/common.py _add_query_type'),
      ('union', 'common/subscription/common.py union'),
      ('intersection', 'common/subscription/common.py intersection')],
     'Each recursive function is checked as one step of an induction over '
     'depth: for every path to each result, tests that hold on it must '
     'entail the result given that recursive calls are right (every branch '
     'that could match tried before "no", every pair of children compared '
     'before "disjoint", each child of either tree stored in a union). '
     'Of intersections, the leaf, \'*\' and non-empty conditions are '
     'decided; that every pair of children is intersected is not.',
     observe=['node_from_query_types', 'get_query_types'])

prop('C31', 'Memory backend keeps what is registered and answers queries from it',
     'Events registered with the memory backend are kept, all of them, '
     'before they are told as registered or flushed and are returned; the '
     'last id of a server is the largest of its kept ids, or zero without '
     'any. Every query with declared parameters gets an answer: events of it '
     'meet all given conditions and no kept event that meets them is left '
     'out, in the order asked for, after the given last event and up to the '
     'given number, with whether more follow; latest events are the newest '
     'of each type.',
     ['inputs', 'histories'],
     'any history of registrations and any combination of query conditions, '
     'orders, limits and last events',
     'tests of the memory backend cover neither conditions of timeseries '
     'queries nor continuation',
     ['backends/memory.py'],
     [('registration', 'backends/memory.py MemoryBackend.register'),
      ('last id', 'backends/memory.py MemoryBackend.get_last_event_id'),
      ('latest', 'backends/memory.py MemoryBackend._query_latest'),
      ('timeseries', 'backends/memory.py MemoryBackend._query_timeseries'),
      ('server', 'backends/memory.py MemoryBackend._query_server')],
     'Queries are expanded (generators fused with their consumers) for each '
     'combination of order and key, each condition alone and all at once; '
     'of each result the steps it was made by are read back from the kept '
     'events: every event put in has passed each given condition, every one '
     'left out has failed one, sorting precedes anything by position, and '
     'the limit and rest are those given.')

prop('C32', 'Collections give back the values whose subscriptions match',
     'A value added to an event type collection with a subscription is given '
     'for every event type that matches any query type of any subscription '
     'it was added with and for no other, whatever other values and types '
     'are there. After a value is removed it is given for none.',
     ['inputs', 'histories'],
     'any history of additions and removals, of any subscriptions, and any '
     'event type',
     'tests of collections need a compiled module and add single types, so '
     'values added again or under several types with some already there '
     'are not reached',
     ['common/collection/pytree.py', 'common/collection/pylist.py'],
     [('tree', 'common/collection/pytree.py PyTreeEventTypeCollection.add'),
      ('removal', 'common/collection/pytree.py PyTreeEventTypeCollection.remove'),
      ('walk', 'common/collection/pytree.py _get'),
      ('list', 'common/collection/pylist.py PyListEventTypeCollection')],
     'Of every query type of the subscription the node its subtypes lead to '
     'must get the value and be noted for removal before the next one; the '
     'walk is checked as a step of an induction over depth: on every path, '
     'the values of \'*\', of the node itself at the end of the type, and of '
     'walks from children named by the subtype and \'?\' are all given on '
     'unless absent, and nothing else is. The collection in C is not '
     'analysed (it is not built here).',
     observe=['create_event_type_collection'])

prop('C33', 'Events are kept by LMDB backend only where its conditions hold',
     'An event matches the configured conditions exactly when every '
     'condition with a subscription matching its type holds. An \'all\' '
     'condition holds when each of its parts does, an \'any\' condition '
     'when at least one does, and a \'json\' condition when the payload is '
     'JSON whose data at the path is of the configured type and value, '
     'where these are configured.',
     ['inputs'],
     'any configuration of conditions, nested to any depth, and any event',
     'tests try a few conditions, so nesting, combinations of type and '
     'value and kinds of data that differ subtly (flags and numbers) are '
     'not reached',
     ['backends/lmdb/conditions.py'],
     [('by type', 'backends/lmdb/conditions.py Conditions'),
      ('composition', 'backends/lmdb/conditions.py _AllCondition'),
      ('content', 'backends/lmdb/conditions.py _JsonCondition')],
     'Every configured condition must be put in the collection under its '
     'own subscriptions; in walks over conditions the early answer needs an '
     'element that tells it and the other one needs all of them to have '
     'been passed. Each way to an answer on JSON content is compared with '
     'the literals that its kind of data calls for. Whether collections '
     'give the right conditions is C32; what a JSON path leads to is '
     'of another library.',
     observe=['Conditions'])

prop('C34', 'Manager does what its arguments ask for and tells what came of it',
     'The command line manager registers exactly the one event described by '
     'its arguments and content, and its exit code tells whether that was '
     'confirmed. Each query asks with exactly the given parameters and its '
     'whole result is printed, and watching prints all notified events of '
     'the given types. Every argument is read as the value it stands for, '
     'and the connection is closed in the end.',
     ['inputs', 'fault_sequences'],
     'any command line, any content of the payload and any behaviour of '
     'the server',
     'no test runs the manager',
     ['manager/main.py'],
     [('arguments', 'manager/main.py create_argument_parser'),
      ('actions', 'manager/main.py main'),
      ('registration', 'manager/main.py register'),
      ('query', 'manager/main.py query'),
      ('watching', 'manager/main.py subscribe')],
     'The command is followed from the declaration of its arguments to the '
     'calls of the client: what arrives in each field must be the argument '
     'declared under its name for the chosen action, with a type function '
     'that is shown to read texts as that field is meant. Payloads are '
     'compared for each payload type and each source, by the paths that '
     'are left with that type. What is printed must be the JSON of the '
     'whole result. The manager server action is not implemented and '
     'nothing is claimed of it.',
     observe=['main'],
     assume=['argparse parses command lines as documented, and hat.json '
             'decodes and encodes what its arguments say'])

prop('C35', 'LMDB manager tells and copies exactly the stored rows asked for',
     'Each query of the LMDB manager tells every stored row of what is '
     'asked for, by its own fields, and no row that an argument rules out; '
     'stored rows are never changed by it. A copy has every row of every '
     'database as it was, except for the latest or time series rows that '
     'are to be skipped and references to them. It is never written over '
     'something that exists.',
     ['inputs', 'histories'],
     'any stored database and any command line',
     'no test runs the LMDB manager',
     ['backends/lmdb/manager/query.py', 'backends/lmdb/manager/copy.py',
      'backends/lmdb/manager/main.py', 'backends/lmdb/manager/common.py'],
     [('queries', 'backends/lmdb/manager/query.py query'),
      ('copying', 'backends/lmdb/manager/copy.py copy'),
      ('references', 'backends/lmdb/manager/copy.py _copy_ref'),
      ('JSON', 'backends/lmdb/manager/common.py event_to_json')],
     'For each kind of query, what is printed must be made of the key and '
     'value of a row of its database, decoded by the definition of that '
     'database, and each iteration over its rows must print unless it '
     'passed a comparison of the argument with the field it is about. '
     'Copies must put key and value of the row that was read to the '
     'database of the same kind, for each kind, unless its skip argument '
     'is given. References are followed for each of the four choices of '
     'what is skipped. How rows are encoded is C28 and C29.',
     observe=['main'],
     assume=['argparse parses command lines as documented, hat.json encodes '
             'what it is given, and LMDB cursors yield every row of their '
             'database'])

prop('C36', 'No task changes a collection that another task walks over',
     'While a task walks over a collection kept by an object and can be '
     'suspended meanwhile, no other task can change the size of that '
     'collection: the walk is over a copy or over something taken away from '
     'the object, or nothing changes the collection once its object is in '
     'use. No walk adds to or removes from the collection it goes over.',
     ['schedules', 'inputs'],
     'any schedule of the tasks of a server, client or backend: connections, '
     'requests and modules that come and go while others are served',
     'tests connect one client at a time and finish each call before the '
     'next; the change has to fall between two steps of a walk',
     ['eventer/server.py', 'eventer/client.py', 'server/engine.py',
      'server/eventer_client_runner.py', 'backends/lmdb/backend.py',
      'backends/memory.py', 'component.py'],
     [('status changes', 'eventer/server.py Server.set_status'),
      ('notifications', 'eventer/server.py Server.notify_events'),
      ('sessions', 'server/engine.py Engine._process_sessions')],
     'Every function of the package with a loop or comprehension (converters '
     'aside) is analysed. For each walk over an attribute (or a view of it) '
     'that is not wrapped in a copy, no suspension point may lie between two '
     'of its steps when some function of the module changes the size of that '
     'attribute in place, unless the attribute was rebound before the walk. '
     'Within any walk, no call may change the size of what is walked over '
     'and then go on walking, also through a method of the same object.',
     observe=['register'],
     assume=['collections are told apart by attribute name within a module; '
             'one handed to another module under another name is not '
             'followed'])

prop('C37', 'A database is opened only as what it is, last events are told',
     'A database of another version or of another identifier than the one '
     'asked for is never opened; a version or identifier it lacks is '
     'recorded in the transaction that opens it. The last event id and the '
     'last timestamp of a server are those last set for it, otherwise those '
     'stored in the database, and the initial ones only for a server that '
     'has none.',
     ['histories', 'inputs'],
     'any database content, configuration and order of registered events',
     'tests open new databases, one version and one identifier',
     ['backends/lmdb/systemdb.py'],
     [('settings', 'backends/lmdb/systemdb.py _ext_validate_settings'),
      ('last events', 'backends/lmdb/systemdb.py SystemDb')],
     'Every way through opening the system database to its end must pass, '
     'for version and for identifier, an assumption that the recorded one '
     'is missing, equals the argument, or that none is asked for (as may '
     'be for an identifier). Where it is missing, the argument must be put under its key in a '
     'container that is written to the settings database. What last event '
     'id and last timestamp are told from must be the table filled from '
     'their database, by the id of the server, and the first value only '
     'where the table has none; setting must put the value in that table.',
     observe=['get_last_event_id'],
     assume=['rows of a database are what C29 says of them'])
