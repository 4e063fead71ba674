"""Server properties S01-S26 for meta.py."""
T, D, CW, CM, MC, NC, CL = ['server-lib/src/' + x for x in ('topics.rs', 'dispatcher.rs', 'clients/clientworker.rs', 'clients/mod.rs',
                                                            'clients/mqttclient.rs', 'clients/noiseclient.rs', 'clients/client.rs')]
LIB, CFG = 'server-lib/src/lib.rs', 'server-lib/src/config.rs'
WIRE = 'the bytes on the client sockets'
NOTES = ('D01-D14: crate packet. S01-S26: crate server-lib (S24, S26: also the programs bm and server), its real code and that of tokio (sync, select!, io) compiled with a simulated '
         'executor, network, clock and spawning (harness/shim). All inputs symbolic, all feasible paths within the bounds.')
NOT_APPLICABLE = []
HOOKS = None


def add(P):
    P('S01', 'A message reaches a subscription exactly if filter and topic match',
      'A published message is delivered to a client subscribed to one filter exactly once if the filter matches the topic by the MQTT rules '
      '("+" one whole level, "#" the parent level and everything below, empty levels count, topics starting with "$" are not matched by a '
      'filter starting with a wildcard), and not at all otherwise.',
      ['inputs'], 'every topic filter and every topic name',
      'The matcher is a tree of maps with special children for wildcards; tests subscribe to a handful of filters and do not reach empty levels, "$" or "a/#" against "a".',
      [T, D], [('tree of topic levels', T + ' TopicsTree / lookup'), ('publish', D + ' process_publish')], [WIRE])
    P('S02', 'Overlapping subscriptions deliver one copy; NO_LOCAL affects only its own',
      'A client whose several subscriptions match a message gets it exactly once. It gets none only if it published the message itself and every '
      'subscription of its that matches has NO_LOCAL.',
      ['inputs', 'configurations'], 'every pair of filters with every NO_LOCAL combination, against every topic, own or foreign publisher',
      'Merging of subscriptions from different branches of the tree depends on which of them match; tests use disjoint filters.',
      [T, D], [('merge of matches by client', T), ('NO_LOCAL check', D)], [WIRE])
    P('S03', 'The subscription table is what the history of operations makes it',
      'After any history of subscribing (again, with other options), unsubscribing and removing whole clients, a message goes to exactly the clients '
      'whose remaining subscriptions match; no operation of one client affects another.',
      ['histories'], 'every short sequence of operations on shared, nested and wildcard filters',
      'Removal prunes and leaves levels that others still use; tests subscribe once and never remove.',
      [T], [('subscribe / unsubscribe / unsubscribe_all', T)], [WIRE, 'TopicsDispatcher API'])
    P('S04', 'Concurrent changes of the subscription table lose nothing',
      'Operations of several tasks on the subscription table at the same time all take effect: afterwards it is as after performing them one after another, '
      'lookups meanwhile see no third state, and none deadlocks.',
      ['schedules'], 'every interleaving (within the bound) of subscribing, unsubscribing and lookups on overlapping levels',
      'The table takes and gives up locks level by level; unit tests run one task.',
      [T], [('per-level locks', T)], [WIRE, 'TopicsDispatcher API'])
    P('S05', 'A delivered message is the published one',
      'What a subscriber receives has exactly the topic, payload and properties of the published message, at QoS 0 and without flags. A publish asking for what the server does '
      'not support (QoS above 0, DUP, RETAIN, message expiry, topic alias, subscription identifier) is answered with DISCONNECT 0x83 and delivered to nobody.',
      ['inputs'], 'every PUBLISH: flags, topic, payload and properties',
      'Tests publish one message without properties.',
      [D, CW], [('process_publish', D), ('refusal of unsupported publishes', CW)], [WIRE])
    P('S06', 'Every subscriber gets every message once, in the order of its publisher',
      'With several publishers and subscribers active at once, each subscriber connected throughout gets each matching message exactly once, messages of one publisher on one '
      'connection in the order published.',
      ['schedules'], 'every interleaving (within the bound) of publishers, dispatcher and client tasks',
      'Order and loss depend on how queue, dispatcher and per-client tasks interleave; tests run one schedule with one client.',
      [D, CW, CL], [('dispatcher queue', D), ('per-client queue', CL)], [WIRE])
    P('S07', 'Strict permeability: encrypted messages never leave unencrypted',
      'Under strict channel permeability a message that came in over an encrypted connection is never sent over an unencrypted one, but reaches every matching '
      'encrypted subscriber; messages from unencrypted connections, and all messages under permissive permeability, reach every matching subscriber. This also holds while '
      'clients disconnect or reconnect under the same identifier over the other kind of connection.',
      ['configurations', 'schedules'], 'both settings, every kind of publisher and subscriber, every interleaving (within the bound) of a takeover with a publish',
      'The side of a message and that of its receiver are compared at a later time than the message is received; no test uses two sides.',
      [D, CW, 'server-lib/src/packetinfo.rs', LIB], [('permeability check', D), ('packet info', 'server-lib/src/packetinfo.rs')], [WIRE])
    P('S08', 'CONNECT is accepted or refused as documented, and CONNACK says what holds',
      'A connection is served exactly if its first packet is a CONNECT asking for nothing unsupported (clean start, no will, no credentials, no extended '
      'authentication); otherwise it is closed without effect on others (a refused CONNECT is answered with 0x83 first). '
      'A client that accepts no packet as large as the answer is closed without one. '
      'CONNACK announces what the server supports and is configured for, and assigns an identifier exactly if the client gave none; assigned identifiers are unique.',
      ['inputs'], 'every CONNECT and every other packet in its place',
      'Tests connect with one plain CONNECT.',
      [MC, CM, LIB], [('CONNECT processing', MC), ('assigned identifiers', MC)], [WIRE])
    P('S09', 'No client can disturb others, whatever it sends and whenever it goes',
      'Any bytes, at any stage of a connection, plain or encrypted, followed by any way of leaving, at most end that connection: no task of '
      'the server panics or hangs, other clients are served as before, and new ones are accepted.',
      ['inputs', 'fault_sequences'], 'every byte string at every protocol stage',
      'Tests only send valid packets in the expected order.',
      [MC, NC, CW, CM, D, LIB], [('recv loops', MC + ', ' + NC), ('process_packet', CW)], ['a second client', 'new connections', 'panics of tasks'])
    P('S10', 'Packet size limits hold in both directions',
      'A packet larger than the server\'s configured maximum ends the connection of its sender and is delivered to nobody, one of at most that size is served; a client never gets a '
      'packet larger than the maximum it announced, and a message too large for one subscriber is discarded for that one alone, without ending its connection.',
      ['inputs', 'configurations'], 'every packet size around every limit, plain and encrypted',
      'Limits are enforced at separate places per transport; tests send only small packets.',
      [MC, NC, CL], [('maximum packet size', MC + ', ' + NC)], [WIRE])
    P('S11', 'How bytes arrive does not matter',
      'The broker\'s behaviour depends on the bytes a client sent, not on how they are split into segments or batched together, plain or encrypted.',
      ['inputs', 'schedules'], 'every cut of a conversation into segments',
      'The receive loops keep partial packets in a buffer across reads; tests write whole packets.',
      [MC, NC], [('receive buffer', MC), ('noise framing', NC)], [WIRE])
    P('S12', 'One living connection per client identifier: the newest',
      'When a client connects with an identifier in use, the old connection is ended and the new one stays, registered and served; after any history of connects and '
      'disconnects, also simultaneous ones, exactly the identifiers with a living connection are known, each with its newest connection.',
      ['histories', 'schedules'], 'every short history of connects and closes, every interleaving of two connects',
      'Registering the new and removing the old connection race with each other; no test connects twice.',
      [CM, CW, CL], [('registry of clients', CM)], [WIRE, 'ClientManager'])
    P('S13', 'A new connection starts without the subscriptions of an old one',
      'A client that connects (with clean start, the only kind served) gets no message until it subscribes, whether its previous connection ended, '
      'was taken over, or was subscribing at that moment.',
      ['schedules', 'histories'], 'every interleaving (within the bound) of the end of the old connection and the start of the new one',
      'Needs a takeover that overtakes the processing of a packet; no test reconnects.',
      [CM, D, T], [('unsubscribe_all at the end of a connection', CM), ('subscribe', D)], [WIRE])
    P('S14', 'A client that is gone leaves nothing behind',
      'Whenever and however a connection ends (closed in either direction, or reset, after any number of bytes), its tasks end, its socket is closed, and its registration and '
      'subscriptions are removed, while complete packets it sent before closing are served.',
      ['crash_points', 'schedules'], 'every point of the byte stream, several ways of ending, every schedule within the bound',
      'Leaks show only for particular points of failure; no test ends a connection early.',
      [CW, CM, MC, NC], [('end of the worker', CW)], ['tasks, sockets and tables of the server'])
    P('S15', 'Shutdown completes from every state',
      'Once shutdown is requested, all tasks end and all connections are closed, whatever the connections are doing (silent, in the handshake, blocked '
      'on a full window, just arriving); it never hangs and leaves nothing running.',
      ['schedules', 'configurations'], 'every stage of several connections, every interleaving within the bound',
      'Shutdown is a broadcast plus a notification that tasks may be waiting for or about to wait for; the tests stop an idle server.',
      [LIB, D, CM, CW], [('stop broadcast and notify', LIB)], ['tasks and sockets of the server'])
    P('S16', 'SUBACK answers every filter in order, and truthfully',
      'Each SUBSCRIBE is answered by one SUBACK with its packet identifier and one reason code per filter in the order of the request; a filter is subscribed exactly '
      'if its code grants it: QoS 0 with retain handling "do not send"; all others are refused with 0x83.',
      ['inputs'], 'every list of filters with every option byte',
      'Tests subscribe to one filter and do not look at the codes.',
      [D, CW], [('process_subscribe', D)], [WIRE])
    P('S17', 'Connections that do not finish connecting in time are ended',
      'A connection that has not completed its handshake within the configured time is closed at that time, even when bytes trickle in; one that completed in time is '
      'not closed for it later.',
      ['configurations', 'schedules'], 'several configured times and stages of the handshake, plain and encrypted',
      'Needs waiting for a timeout; tests do not.',
      [MC, NC, CM], [('handshake timeout', CM)], [WIRE, 'simulated clock'])
    P('S18', 'Unsupported packets are refused to their sender alone',
      'A packet the server does not support (any but PUBLISH and SUBSCRIBE after the CONNECT, and a SUBSCRIBE with a subscription identifier) is answered with DISCONNECT 0x83 '
      'to the client that sent it, has no other effect, and affects no other client.',
      ['inputs'], 'every well-formed packet of every type not served',
      'The answer is routed through the client registry by name; no test sends such packets.',
      [CW, D], [('unimplemented', D)], [WIRE])
    P('S19', 'A slow reader holds up nobody and loses nothing',
      'A subscriber that does not read delays no other client; once it reads again it gets every message in order and intact, however its reads cut the stream.',
      ['schedules', 'fault_sequences'], 'every pattern of how much the slow client takes, within the bound',
      'Needs partial writes, which loopback tests never see.',
      [CW, MC, NC, CL], [('per-client queue', CL), ('write of partial packets', MC + ', ' + NC)], [WIRE])
    P('S20', 'Encrypted connections accept only what the peer sent, in order',
      'On the encrypted port a packet is processed only if it was decrypted from authentic messages in their order; altered, repeated, dropped, reordered or plain data ends '
      'the connection without effect, and no more than the decrypted length is used.',
      ['inputs', 'fault_sequences'], 'every alteration of every authenticated byte, and message order',
      'Needs an active attacker; tests have one correct exchange.',
      [NC], [('noise transport', NC)], [WIRE])
    P('S21', 'Every queue size works, and failing accepts do not stop the listeners',
      'The broker works with every configured size of the dispatcher queue (at least one element is used): full queues delay but neither lose messages nor deadlock. An error of '
      'accepting one connection stops neither listener.',
      ['configurations', 'schedules', 'fault_sequences'], 'every small queue size under every schedule within the bound; accept errors on each listener',
      'Tests use the default size and never see a failing accept.',
      [D, LIB, CFG], [('bounded dispatcher queue', D), ('accept loops', LIB)], [WIRE])
    P('S22', "A client's packets take effect, and are answered, in the order it sends them",
      'Whatever else the broker does at the time, the packets of one connection are processed, and their answers written, in the order in which the client sent them: a message '
      'published after a SUBSCRIBE is delivered by it, and a reply never precedes the reply to an earlier request.',
      ['schedules'], 'every schedule of worker, dispatcher and receiver tasks within the bound',
      'Workers, dispatcher and queues are separate tasks; tests await each reply before sending the next packet.',
      [CW, D, MC, NC], [('client worker', CW), ('dispatcher', D)], [WIRE])
    P('S23', 'Any combination of listeners works; a failed start leaves nothing behind',
      'A server configured with a plain listener, an encrypted one, both or none starts exactly if each bind succeeds, serves each configured listener, and when the start fails '
      'no task, listener or open port remains.',
      ['configurations', 'fault_sequences'], 'every combination of listeners and of failing binds',
      'Tests start one working configuration.',
      [LIB, CFG], [('start-up', LIB)], [WIRE])
    P('S27', "Built without encryption, the library keeps the same promises",
      'The server library with its default features (no encrypted listener) is another program: matching, overlapping subscriptions, content and order of messages, CONNECT, '
      'takeover, clients that vanish or send anything, size limits, timeouts, refusals, slow readers, small queues, failing accepts and shutdown are as described in S01 to S23 for plain clients there too.',
      ['inputs', 'schedules', 'fault_sequences', 'configurations'], 'the inputs, histories and schedules of those properties, in that build',
      'The tests are run with the features of the whole workspace and never see this build.',
      [D, CM, CW, MC, LIB, CFG], [('conditional compilation', D), ('listeners', CM)], [WIRE])
    P('S28', 'Servers in one process have nothing to do with each other',
      'Several servers may run in one process: clients, subscriptions and messages of one are invisible to another, what ends one (shutdown, misbehaving clients) does not touch another, and a server '
      'started after another was shut down, on the same addresses too, knows nothing of it.',
      ['configurations', 'schedules'], 'every event on one of two servers, under every schedule within the bound',
      'Each test runs its own server, but none looks at two at a time.',
      [LIB, CM, D], [('state of the server', LIB)], [WIRE, 'MqttServer::new, shutdown, clients'])
    BM = ['bm/src/' + x for x in ('client.rs', 'publisher.rs', 'subscriber.rs', 'main.rs', 'config.rs')]
    P('S24', 'The benchmark client receives and sends packets whole, and notices the end',
      'The client of the benchmark gets every packet once, whole and in order however its bytes arrive, sends packets whole however slowly they are taken, and reports an error when '
      'the connection ends or breaks, within a packet too, instead of waiting or spinning.',
      ['inputs', 'fault_sequences'], 'every segmentation into up to three pieces and every point at which the connection ends',
      'The program has no tests.',
      [BM[0]], [('recv, send', BM[0])], ['the bytes on the connection', 'results of Client::recv and Client::send'])
    P('S25', 'A benchmark run ends, and its report is about what happened',
      'A run with any numbers of subscribers, publishers and messages (at least one each) and any delay option ends; each message is published once, to the given topic, after the delay asked for; '
      'minimum, maximum, percentiles of the trip times and the mean rates per publisher and per subscriber in the report are those of what was sent and received.',
      ['configurations', 'schedules'], 'every combination of numbers, delays and latencies, under every schedule within the bound',
      'The program has no tests; its figures cannot be verified by looking at them.',
      BM, [('run', BM[3]), ('publisher', BM[1]), ('subscriber', BM[2])], ['what it prints', 'the bytes on the client sockets'])
    P('S26', 'The server program serves both ports, keeps them apart, and goes on',
      'The program listens for plain clients on port 1883 and for encrypted ones on port 8883, delivers between them except from encrypted to plain clients, and does so as long as it runs.',
      ['configurations', 'schedules'], 'every assignment of three clients to ports, at any time',
      'The program has no tests.',
      ['server/src/main.rs'], [('main', 'server/src/main.rs')], [WIRE])
