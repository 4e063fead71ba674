"""The properties, and the harness jobs that decide each of them."""
CRATES = {
    'packet': {
        'package': 'hpacket',
        'sources': ['packet', 'Cargo.lock'],
        'harness_dirs': ['packet', 'rt'],
        'clean': ['apiformes-packet', 'hpacket', 'rt'],
    },
    'server': {
        'package': 'hserver',
        'sources': ['packet', 'server-lib', 'Cargo.lock'],
        'harness_dirs': ['server', 'rt', 'shim', 'packet'],
        'clean': ['apiformes-packet', 'apiformes-server-lib', 'hserver', 'rt'],
        # map keys (client identifiers, topic levels) are symbolic: without this every hash of one would be a
        # SipHash term. Which iteration order the maps have is outside the properties.
        'engine_args': ['--const-hash'],
        # native maps iterate in an order that changes from run to run
        'attempts': 24,
    },
    # the library as it is built by default, without the encrypted listener
    'plain': {
        'dir': 'server',
        'cargo_args': ['--no-default-features'],
        'package': 'hserver',
        'sources': ['packet', 'server-lib', 'Cargo.lock'],
        'harness_dirs': ['server', 'rt', 'shim', 'packet'],
        'clean': ['apiformes-packet', 'apiformes-server-lib', 'hserver', 'rt'],
        'engine_args': ['--const-hash'],
        'attempts': 24,
    },
    'bm': {
        'package': 'hbm',
        'sources': ['packet', 'server-lib', 'bm', 'server', 'Cargo.lock'],
        'harness_dirs': ['bm', 'server', 'rt', 'shim', 'packet'],
        'clean': ['apiformes-packet', 'apiformes-server-lib', 'hbm', 'rt'],
        'engine_args': ['--const-hash'],
        'attempts': 24,
    },
}
LIMIT = {'quick': 600, 'thorough': 6 * 3600}
VALIDATE = {'quick': 4, 'thorough': 12}
ASSUME = [
    'rustc (stable) translates the source to the LLVM IR that is executed; IR and native builds use the same crate versions (Cargo.lock)',
    'the engine in /verif/engine interprets LLVM IR correctly (differential self-test of its simplifier, sampled traces re-run natively)',
    'z3 4.8.12 answers QF_BV queries correctly',
    'memory allocation succeeds; std hash maps use a fixed hash key in the symbolic run',
]
ALL = [16, 1, 3, 8, 10, 2, 14, 4, 5, 6, 7, 9, 11, 12, 13, 15]  # 16: CONNECT with properties in the will; slow ones first
PROPS_OF = [o for o in ALL if o not in (12, 13)]


def heavy(l):
    for j in l:
        j['heavy'] = True
    return l


def decode_inputs(fn, tier, small, kinds=(1, 3, 4)):
    """frames changed in the given ways (see `input` in harness/packet), and arbitrary bytes"""
    if tier != 'quick':
        small += 2
        kinds = kinds + (6,)
    l = [dict(fn=fn, param=1000 * k + 10 * o + 4) for k in kinds for o in ALL]
    l += [dict(fn=fn, param=i) for i in range(0, min(6, small + 1))]
    l += heavy([dict(fn=fn, param=i) for i in range(6, small + 1)])
    l += [dict(fn=fn, param=5000 + 10 * o + 5) for o in ALL]
    if fn != 'h_segments':
        l += [dict(fn=fn, param=5000 + 10 * o + 7) for o in PROPS_OF]
    if tier != 'quick':
        l += heavy([dict(fn=fn, param=1000 + 10 * o + 5) for o in ALL])
        for j in l:
            if j['param'] // 1000 == 6:
                j['heavy'] = True
    return l


def shapes(fn, tier, focuses=(0, 1, 2, 3, 5, 7)):
    return [dict(fn=fn, param=10 * o + f) for f in focuses for o in ALL if not (o in (12, 13) and f)]


PROPS = {}


def prop(id, crate='packet', **kw):
    kw['crate'] = crate
    kw.setdefault('assumptions', [])
    PROPS[id] = kw


SMALL = ('a small well-formed frame of any of the 15 packet types (all header fields symbolic; no property, one of each value type, or two '
         'user properties; one-character strings; CONNECT with and without will, user name, password)')


def b_in(n):
    return {
        'quick': 'every byte string of up to %d bytes; %s with any one byte replaced by any value, with any one byte inserted anywhere, or cut '
                 'short anywhere with the remaining length adjusted; frames with all allowed properties or all but one, 7 topics or 21 reason codes, and with up to 601 properties, 141 topics, 17000 reason codes' % (n, SMALL),
        'thorough': 'every byte string of up to %d bytes; the frames of the quick tier, and with any two bytes replaced by any values; the frames with many properties with any one byte replaced' % (n + 2),
    }


O_IN = ('longer inputs that are not within one (thorough: two) byte changes of a small well-formed frame; buffers of several chunks (D07); '
        'exhausted memory')
B_SHAPE = ('every packet type with: all combinations of header fields, flags, reason codes and optional fields with symbolic integers and 0-3 '
           'character strings, up to 3 topics or reason codes; every one allowed property (strings of 0-2 characters); every ordered pair of '
           'allowed properties; property sections and strings at the boundaries of the length encodings (120..130, 16375..16382, 65535 bytes; '
           'two characters of the long strings symbolic); all allowed properties in one packet and all but any one, with 7 topics or 21 reason codes; 36, 71 or 601 properties, 18 or 141 topics, 33, 300 or 17000 reason codes')
O_SHAPE = 'other sets of three and more properties (D14 covers insertion histories), strings of more than two symbolic characters, other long lists of topics'

prop('D01', jobs=lambda t: decode_inputs('h_total', t, 7), covers={'h_total': ['decoded', 'more', 'rejected']}, bounds=b_in(7), outside=O_IN)
prop('D02', jobs=lambda t: decode_inputs('h_framing', t, 6), covers={'h_framing': ['decoded', 'followed']}, bounds=b_in(6), outside=O_IN)
prop('D03', jobs=lambda t: decode_inputs('h_more', t, 7), covers={'h_more': ['decoded', 'more', 'rejected']}, bounds=b_in(7), outside=O_IN)
prop('D04', jobs=lambda t: shapes('h_roundtrip', t), covers={'h_roundtrip': ['bytes', 'props2']}, bounds=B_SHAPE, outside=O_SHAPE)
prop('D05', jobs=lambda t: shapes('h_sizes', t), covers={'h_sizes': ['sized']}, bounds=B_SHAPE, outside=O_SHAPE)
prop('D06', jobs=lambda t: decode_inputs('h_reencode', t, 7), covers={'h_reencode': ['decoded', 'identical']}, bounds=b_in(7), outside=O_IN)
prop('D07', jobs=lambda t: decode_inputs('h_segments', t, 5, kinds=(5,) if t == 'quick' else (5, 1)),
     covers={'h_segments': ['decoded', 'rejected']},
     bounds={'quick': 'every byte string of up to 5 bytes and ' + SMALL + ', each in two chunks cut anywhere or in one-byte chunks',
             'thorough': 'every byte string of up to 7 bytes and the small frames, unchanged or with one byte replaced, each in two chunks cut '
                         'anywhere or in one-byte chunks'},
     outside='other partitions into chunks; longer frames')
prop('D08', jobs=lambda t: [dict(fn='h_varint_value'), dict(fn='h_varint_bytes')] + [dict(fn='h_varint_header', param=i) for i in range(13)]
     + [dict(fn='h_varint_frame', param=i) for i in range(12)],
     covers={'h_varint_value': ['encoded', 'too big'], 'h_varint_bytes': ['valid', 'invalid'],
             'h_varint_header': ['malformed', 'incomplete', 'declared'], 'h_varint_frame': ['boundary']},
     bounds='all 2^32 values as a property value; all byte sequences of 5 bytes where an integer is decoded (property value) and of up to 5 bytes '
            'as remaining length of every packet type; whole frames at the boundaries 127/128, 16383/16384, 2097151/2097152',
     outside='complete frames of more than 2 MB')
prop('D09', jobs=lambda t: [dict(fn='h_text', param=100 * s + n) for s in range(6) for n in range(0, 5 if t == 'quick' else 7)]
     + [dict(fn='h_text_limit', param=10 * i + s) for i in range(6) for s in range(10)]
     + [dict(fn='h_text_limit', param=100 * k + 10 * i + s) for k in (1, 2, 3) for i in range(6) for s in (0, 1, 3, 5, 7, 8, 9)],
     covers={'h_text': ['good text', 'bad text', 'api'], 'h_text_limit': ['fits', 'too long']},
     bounds={'quick': 'every byte string of up to 4 bytes in each kind of string field, from the wire and through the API; strings and binary '
                      'data of 65534, 65535, 65536 bytes and beyond in every field',
             'thorough': 'every byte string of up to 6 bytes in each kind of string field; the same limits'},
     outside='longer arbitrary text (the checks are per character)')
prop('D10', jobs=lambda t: [dict(fn='h_topic', param=100 * s + n) for s in list(range(8)) + [10] for n in range(1, 6 if t == 'quick' or s == 10 else 8)],
     covers={'h_topic': ['good wildcard', 'bad']},
     bounds={'quick': 'every printable ASCII topic of 1 to 5 characters at each place topics enter (builders and decoders of SUBSCRIBE, '
                      'UNSUBSCRIBE, PUBLISH, MqttTopic, a later topic of a list), every UTF-8 topic of up to 5 bytes in MqttTopic',
             'thorough': 'the same with topics of up to 7 characters'},
     outside='longer topics; the empty topic (known finding)')
prop('D11', jobs=lambda t: [dict(fn=f, param=o) for f in ('h_prop_api', 'h_prop_wire', 'h_prop_unknown') for o in PROPS_OF],
     covers={'h_prop_api': ['accepted', 'refused'], 'h_prop_wire': ['accepted', 'refused'], 'h_prop_unknown': ['unknown']},
     bounds='all 27 properties x 14 owners x 7 value types through the builders; all 27 properties x 14 owners, once and twice, with symbolic '
            'values, from the wire; all unknown one-byte identifiers',
     outside='identifiers of two and more bytes; see the known findings')
prop('D12', jobs=lambda t: decode_inputs('h_reference', t, 7), covers={'h_reference': ['accepted', 'rejected', 'more']}, bounds=b_in(7), outside=O_IN)
prop('D13', jobs=lambda t: heavy([dict(fn='h_setters', param=10 * o + (2 if t == 'quick' and o == 1 else 3)) for o in (1, 3, 8, 16)] + [dict(fn='h_setters', param=1000 + 10 + 2)]),
     covers={'h_setters': ['failed setter']},
     bounds={'quick': 'every sequence of 3 setter calls (CONNECT: 2, from an empty one and from every will QoS and all fields set) on CONNECT, PUBLISH, SUBSCRIBE and a will, each with a valid or an invalid argument',
             'thorough': 'every sequence of 3 setter calls'},
     outside='longer sequences; the setters of the other packets (D11, D14 cover their properties)')
prop('D14', jobs=lambda t: [dict(fn='h_prop_history', param=10 * o + (3 if t == 'quick' else 4)) for o in PROPS_OF],
     covers={'h_prop_history': ['history', 'replaced']},
     bounds={'quick': 'every sequence of 3 insertions among the repeatable property and one of each value type, per owner, symbolic values',
             'thorough': 'the same with 4 insertions'},
     outside='longer sequences')


# ---- the broker --------------------------------------------------------------------------------
SIM = [
    'tokio 1.15: its real sync, macros, io-util and select! code is executed; executor, sockets, timer and spawning are the simulation in '
    '/verif/harness/shim/tokio. Tasks are preempted at awaits, before every RwLock/Mutex acquisition and nowhere else',
    'schedules are those with at most the stated number of departures from first-woken-first-run (delay-bounded scheduling: run a later task '
    'first, poll another branch of select! first, let others run before a lock is taken)',
    'snow is replaced by a stand-in with the same message flow whose "ciphertexts" carry a checkable authentication tag; uuid by a counter',
    'tracing evaluates the arguments of every log statement and writes nothing',
    'hash maps of the broker hash to a constant (iteration order = insertion order) in the symbolic run, and randomly in the native runs',
]


def server(id, jobs, covers=None, bounds='', outside='', crate='server'):
    prop(id, crate=crate, jobs=jobs, covers=covers or {}, bounds=bounds, outside=outside, assumptions=SIM)


def js(fn, *params):
    return [dict(fn=fn, param=p) if fn not in LONG else dict(fn=fn, param=p, max_steps=1000000000) for p in params]


LONG = ('h_backlog', 'h_crowd', 'h_failures', 'h_many')  # long, but few paths


def q(t, quick, thorough):
    return quick if t == 'quick' else thorough


server('S01', lambda t: js('h_matching', *[10 * n + m for n in range(1, 5) for m in range(1, 5)], 55, 51, 15) + heavy(q(t, js('h_matching', 66), js('h_matching', 66, 57, 75, 77, 88))) +
       js('h_deep', *[1000 * s + 10 * n + m for s in range(5) for n in (1, 2) for m in (1, 2)]) + heavy(js('h_deep', *q(t, [33, 1033], [1000 * s + 33 for s in range(5)]))),
       {'h_deep': ['match', 'no match'], 'h_matching': ['match', 'no match']},
       {'quick': 'every printable ASCII filter and topic of 1 to 4 characters each (and of 5 x 5, 6 x 6, 5 x 1, 1 x 5), any byte as payload; such of up to 2 (for some 3) characters below 16 levels '
                 '(with and without + among them), below 12 empty levels, a level of 300 characters, a level of non-ASCII characters',
        'thorough': 'the same, and lengths up to 8 x 8'},
       'longer filters and topics; characters outside printable ASCII (the codec decides them, D09, D10)')
server('S02', lambda t: js('h_overlap', 111, 121, 211, 112, 222, 122, 131, 311, 113) + heavy(js('h_overlap', *q(t, [323, 313, 133], [323, 313, 133, 333, 343, 434]))),
       {'h_overlap': ['delivered', 'not delivered']},
       {'quick': 'every pair of printable ASCII filters of up to 3 characters (shapes 1-3 x 1-3 as listed in the jobs), NO_LOCAL set or not on each, own or '
                 'foreign publisher, every topic of up to 3 characters',
        'thorough': 'the same up to 4 characters'},
       'more than two overlapping subscriptions; longer filters')
server('S03', lambda t: js('h_history', 1, 2, 11, 12) + heavy(js('h_history', *q(t, [3, 13], [3, 13, 4, 14]))) + js('h_many', 20, 30, 21, 31),
       {'h_history': ['delivered', 'not delivered']},
       {'quick': 'every history of up to 3 operations (SUBSCRIBE on the wire, unsubscribe, unsubscribe_all) of 2 clients on 3 or 4 filters with arbitrary '
                 'letters as levels, then a publish to any one- or two-level topic of letters; 9 clients with 6 filters each, any of which loses all or any one of its filters',
        'thorough': 'the same with up to 4 operations'},
       'longer histories')
server('S04', lambda t: js('h_concurrent', *[10 * b + v for b in (0, 1) for v in range(9)]) + heavy(js('h_concurrent', *[10 * b + v for b in q(t, (2, 3), (2, 3, 4)) for v in range(9)])),
       {},
       {'quick': 'two operations on the subscription table (9 combinations, of one client and of two, arbitrary letters as levels) and a lookup at the same time, every schedule with up to 3 departures',
        'thorough': 'the same with up to 4 departures'},
       'more than two concurrent updates')
server('S05', lambda t: js('h_props_many', 30) + js('h_content', *[10 * e + f for e in (0, 1) for f in (0, 1, 2, 4, 5)]) + heavy(js('h_content_large', *q(t, [0], [0, 1]))),
       {'h_content': ['delivered', 'refused'], 'h_content_large': ['delivered']},
       'PUBLISH with every flag combination, topic and payload of up to 2 symbolic bytes, and no, one, two or all properties with symbolic values, over plain and '
       'encrypted connections; payloads and properties at the encoding boundaries up to 16 kB; 31 properties in one packet',
       'PUBLISH with more properties or other lengths; the will (refused in CONNECT)')
server('S06', lambda t: js('h_queue', 11, 21) + js('h_backlog', 0, 100) + js('h_crowd', 0, 1) + js('h_fanout', 0, 1, 10, 20, 100, 101, 110, 111, 120, 121) + heavy(js('h_fanout', *q(t, [200, 211, 221], [200, 201, 210, 211, 220, 221, 301, 311, 321]))),
       {},
       {'quick': '2 publishers with 2 messages each (arbitrary payloads, in one segment or two), 3 subscribers and a publisher that subscribes with or without NO_LOCAL, '
                 'every schedule with up to 2 departures; without departures: 2500 messages to 2 subscribers, 72 messages of 6 publishers to 12',
        'thorough': 'the same with up to 3 departures'},
       'other numbers of clients and messages')
server('S07', lambda t: js('h_strict', 0, *[10 * b + v for b in (0, 1, 2) for v in (1, 2, 3)]) + heavy(js('h_strict', *q(t, [31, 32, 33], [31, 32, 33, 41, 42, 43]))),
       {'h_strict': ['withheld', 'delivered']},
       {'quick': 'both permeabilities, publisher and subscriber each plain or encrypted; publisher or subscriber replaced by a plain client of the same name, or gone, '
                 'at the same time, every schedule with up to 3 departures',
        'thorough': 'the same with up to 4 departures'},
       'the cryptography itself (snow)')
server('S08', lambda t: js('h_handshake', *[1000 * e + 10 * o + f for e in (0, 1) for o in (1, 16) for f in (0, 1, 2, 4, 5)]) +
       js('h_first', *[1000 * e + 10 * o + 4 for e in (0, 1) for o in range(2, 16)]) + js('h_clean', 0, 1, 2, 5),
       {'h_handshake': ['refused', 'accepted', 'assigned'], 'h_clean': ['accepted', 'refused', 'assigned', 'not told']},
       'CONNECT of every shape: all flags, identifiers of 0 to 2 characters, will, user name, password, no, one, two or all properties with symbolic values; every other packet type as first packet',
       'longer identifiers')
server('S09', lambda t: js('h_failures', 0, 1, 2, 3, 4, 5) + js('h_hostile', *[100000 * s + n for s in (0, 1, 4, 5, 6, 7, 3) for n in range(1, 4)]) +
       js('h_hostile', *[100000 * s + 5000 + 10 * o + 4 for s in (0, 1, 4, 5) for o in ALL]) +
       js('h_hostile', *[100000 * s + n for s in (8, 9, 10, 11) for n in list(range(18)) + [20, 40]]) + js('h_hostile', *[10000000 + 100000 * s + 5000 + 10 * o + 4 for s in (1, 5) for o in ALL]) +
       js('h_hostile', *[103000 + 10 * o + 4 for o in ALL if o not in (1, 16)]) +
       js('h_hostile', *[105030, 5010, 105013 + 2, 105085, 5015]) +
       heavy(js('h_hostile', 103014, 100005, 600006, 101044, 101094, 101104, 101154)) +
       (heavy(js('h_hostile', 103164, 100006, 101084, 101114, 101144, 101024, 101054, 101064, 101074, 105080, 100007, 101034, 1014, 501034)) if t != 'quick' else []),
       {},
       {'quick': 'any 1 to 3 bytes at each of 7 stages (before and after CONNECT, before, in and after the noise handshake; 5 bytes after CONNECT), every well-formed small frame '
                 'of every type, those cut short with an adjusted length, some with one byte replaced by any; the connection then stays or breaks (at once, with every schedule of 1 departure); noise frames of any 0 to 17, 20, 40 bytes; 130 connections that fail in the same way one after another',
        'thorough': 'longer byte strings and one replaced byte in more packet types'},
       'longer garbage (D01 covers the decoder alone further); memory exhaustion by volume')
server('S10', lambda t: js('h_size', 0, 1, 10, 11) + js('h_large', 0),
       {'h_size': ['let in', 'kept out', 'sent', 'discarded', 'not told'], 'h_large': ['fits', 'too large']},
       'incoming packets of 57 to 86 bytes against a limit of 64; outgoing packets (CONNACK, SUBACK, PUBLISH of 37 to 65 bytes) against every client limit; messages at the size of a noise message (65519 bytes, +-2)',
       'other lengths')
server('S11', lambda t: js('h_segments', 0, 1) + heavy(js('h_segments', 10) + q(t, [], js('h_segments', 11, 20, 21))) + js('h_segments', 31),
       {},
       {'quick': 'CONNECT, 3 PUBLISH and a SUBSCRIBE (symbolic payloads, together longer than the size limit): whole, byte by byte, and cut at any two places (encrypted: any one)',
        'thorough': 'cut at any two places (encrypted too), and at three places with the server busy in between'},
       'other packet sequences')
server('S12', lambda t: js('h_many', 40, 41) + js('h_registry', 2, 3, 12, 13, 22, 23, 102, 112, 122) + js('h_takeover', *[10 * b + v for b in (0, 1, 2) for v in range(9)]) +
       heavy(js('h_registry', *q(t, [4, 14], [4, 14, 24, 5, 103, 113, 202])) + js('h_takeover', *[10 * b + v for b in q(t, (3,), (3, 4)) for v in (q(t, (0, 1, 2), range(9)))])),
       {'h_registry': ['taken over']},
       {'quick': 'every history of up to 4 connects (any one-letter identifier), closes and resets (plain and encrypted, of up to 3 also mixed); of 2 with one departure; two simultaneous connections of one client (each plain or encrypted), every schedule with up to 3 (encrypted: 2) departures; any of 9 clients connecting again',
        'thorough': 'histories of 5; of 3 with one departure, of 2 with two; simultaneous connections with up to 4 departures'},
       'longer histories')
server('S13', lambda t: js('h_many', 40, 41) + js('h_fresh', *[10 * b + v for b in (0, 1, 2) for v in range(5)], *[100 * k + 10 * b + v for k in (1, 2) for b in (0, 1) for v in range(5)]) + (heavy(js('h_fresh', 30, 31, 32, 33, 34)) if t != 'quick' else []),
       {},
       {'quick': 'a client with subscriptions of every shape that reconnects (plain, or with one of the connections encrypted) and closes, is taken over, or still sends a SUBSCRIBE meanwhile, or with a publisher sending meanwhile, every schedule with up to 2 (encrypted: 1) departures; any of 9 clients with 6 subscriptions each',
        'thorough': 'the same with up to 3 departures'},
       'sessions that are to be resumed (refused by the server)')
server('S14', lambda t: js('h_many', 0, 1, 10, 11) + js('h_last', *[100 * v + 10 * b + e for v in range(6) for b in (0, 1) for e in (0, 1)]) + js('h_gone', 0, 1, 10, 11, 100, 110, 101, 111, 20, 21, 30, 31, 120, 130) + heavy(js('h_gone', *q(t, [200, 210], [200, 210, 201, 211, 300, 310]))),
       {},
       {'quick': 'a client whose byte stream (handshake, CONNECT, PUBLISH; or also a SUBSCRIBE and a refused packet) ends after any number of bytes, by closing one or both directions or by a reset, every schedule with up to 2 departures (encrypted: 1); any of 9 clients with 6 subscriptions each, closed or reset; the only client leaving, three times, in six ways, every schedule with 1 departure',
        'thorough': 'up to 3 departures (encrypted: 2)'},
       'hosts that vanish without a word (no keep-alive supervision in the server)')
server('S15', lambda t: js('h_shutdown_many', *range(6)) + js('h_shutdown', 0, 8, 19, 29, 100, 108, 119, 129, 208, 219) + heavy(js('h_shutdown', *q(t, [229, 218, 39], [229, 218, 39, 239, 328, 318, 139, 418]))),
       {},
       {'quick': 'up to 2 connections, each in any of 6 stages (silent, connected, blocked in a full window, encrypted before and after CONNECT, before the noise handshake), 2 more arriving meanwhile; every schedule with up to 2 departures; 14 connections, any one of them in another stage',
        'thorough': 'up to 3 connections, and up to 4 departures'},
       'more connections')
server('S16', lambda t: js('h_suback', 1, 2, 3) + heavy(js('h_suback_many', 20)) + heavy(js('h_suback', *q(t, [], [4]))),
       {'h_suback': ['granted', 'refused', 'malformed']},
       {'quick': 'SUBSCRIBE with up to 3 filters, each with any option byte, any packet identifier; 20 filters, any one with any other options', 'thorough': 'the same with up to 4 filters'},
       'longer lists')
server('S17', lambda t: js('h_timeout', 0, 1, 10, 11, 20, 21, 30, 31),
       {},
       'keep_alive of 1, 2, 60 and 65535 s; a silent client, one with a partial CONNECT, one trickling bytes, one connecting in the last millisecond, each plain and encrypted (before and after the noise handshake)',
       'other configured times')
server('S18', lambda t: js('h_unsupported', *[1000 * e + 10 * o + f for e in (0, 1) for o in (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16) for f in (4, 5)] + [124, 134, 1124, 1134]) +
       js('h_unsupported', *[10 * o for o in (2, 4, 7, 9, 10, 11, 14, 15)]) + js('h_refused_late', *[100 * b + 10 * v + k for b in (0, 1, 2) for v in range(3) for k in range(3)]),
       {'h_unsupported': ['refused']},
       'every well-formed packet of every type the server does not serve (and SUBSCRIBE with an identifier), small, with all properties, and for some with all header fields; a PINGREQ, QoS 1 PUBLISH or such a SUBSCRIBE of a client that goes or is replaced meanwhile, every schedule with up to 2 departures',
       'repeated requests')
server('S19', lambda t: js('h_backlog', 1, 2) + js('h_slow', 0, 1) + heavy(js('h_slow', *q(t, [10], [10, 11]))),
       {},
       {'quick': 'a subscriber that takes any 0 to 19 (encrypted: 59) bytes, then 0 to 7, then the rest; 3 messages; every schedule with up to 1 departure (plain); one that takes any 0 to 2 bytes and then nothing while 2500 messages arrive', 'thorough': 'the same, encrypted too with 1 departure'},
       'unbounded growth of the queue of such a client (the server has no limit)')
server('S20', lambda t: js('h_integrity', 0, 100, 200, 300, 400, 503, 504, 505, 506) + q(t, [], heavy(js('h_integrity', 507, 508))),
       {'h_integrity': ['packet', 'no packet']},
       {'quick': 'each tag byte of a message changed to any other value, messages repeated, left out or reordered, any 16 bytes in place of a handshake message, plain packets on the encrypted port, '
                 'partial packets, any decrypted PUBLISH of up to 6 bytes', 'thorough': 'the same with up to 8 bytes'},
       'the cryptography itself: that changed messages fail authentication is the contract of snow, which the stand-in has by construction')
server('S21', lambda t: js('h_queue', 0, 1, 2, 10, 11, 12, 21) + js('h_accept', 0, 1, 2) + js('h_backlog', 100) + js('h_failures', 6) + q(t, [], heavy(js('h_queue', 20, 22, 31))),
       {},
       {'quick': 'dispatcher queues of none to several elements, 3 publishers with 2 messages each, every schedule with up to 1 departure (one element: 2); 1 or 2 failing accepts on each listener; 2500 messages through a queue of one element; 130 failing accepts',
        'thorough': 'the same with up to 2 (one element: 3) departures'},
       'more clients')
server('S22', lambda t: js('h_requests', 0, 1) + js('h_order', 0, 1, 10, 11, 20, 21, 30, 31, 100, 101, 110, 111, 120, 121) + heavy(js('h_order', 130)) + q(t, [], heavy(js('h_order', 131, 200, 201, 210, 211, 220, 221, 230))),
       {},
       {'quick': 'four exchanges of one client in one stream, over TCP and encrypted, every schedule with up to 1 departure; a stream of 61 requests', 'thorough': 'the same with up to 2 departures'},
       'longer sessions')
server('S23', lambda t: js('h_listeners', 0, 1, 10, 11, 20, 21),
       {'h_listeners': ['started', 'failed']},
       {'quick': 'every combination of plain, encrypted and no listener, each bind failing or not, followed by a connection to each', 'thorough': 'the same'},
       'operating system errors other than a failing bind')

server('S27', lambda t: js('h_matching', 11, 22, 33, 44) + js('h_deep', 22, 1022) + js('h_overlap', 111, 222, 121, 211) + js('h_history', 1, 2, 11, 12) +
       js('h_concurrent', *[10 * b + v for b in (0, 1) for v in range(9)]) + js('h_content', 0, 1, 2, 4, 5) + js('h_props_many', 30) + js('h_clean', 0) +
       js('h_fanout', 0, 1, 100, 101, 10, 110) + js('h_handshake', *[10 * o + f for o in (1, 16) for f in (0, 1, 2, 4, 5)]) + js('h_first', *[10 * o + 4 for o in range(2, 16)]) +
       js('h_hostile', *[100000 * s + n for s in (0, 1) for n in range(1, 4)], *[100000 * s + 5000 + 10 * o + 4 for s in (0, 1) for o in ALL]) + js('h_failures', 0, 1, 3, 4, 6) +
       js('h_size', 0) + js('h_segments', 0) + js('h_registry', 2, 3, 102) + js('h_takeover', 0, 10, 20) + js('h_fresh', *[10 * b + v for b in (0, 1, 2) for v in (0, 1, 4)]) +
       js('h_gone', 0, 10, 100, 110, 20, 30, 120, 130) + js('h_shutdown', 0, 19, 29, 108, 119, 129) + js('h_shutdown_many', 0, 1, 2) + js('h_suback', 1, 2, 3) + js('h_timeout', 0, 10, 20, 30) +
       js('h_unsupported', *[10 * o + 4 for o in (2, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15)], 35) + js('h_refused_late', *[100 * b + 10 * v for b in (0, 1, 2) for v in range(3)]) + js('h_slow', 0) + js('h_backlog', 0, 1, 100) +
       js('h_crowd', 0) + js('h_queue', 0, 1, 2, 10, 11, 12) + js('h_accept', 0, 1) + js('h_order', 0, 10, 100, 110) + js('h_requests', 0) + js('h_many', 0, 10, 20, 30, 40) + js('h_last', 0, 100, 200, 310, 410, 510) + js('h_listeners', 0, 10, 11),
       {'h_matching': ['match', 'no match'], 'h_overlap': ['delivered', 'not delivered'], 'h_handshake': ['refused', 'accepted', 'assigned'], 'h_listeners': ['started', 'failed'],
        'h_suback': ['granted', 'refused', 'malformed']},
       'the plain part of the jobs of S01 to S06, S08 to S19, S21 to S23 that are listed here, on the library without its noise feature',
       'longer inputs and more departures (decided in the build with the feature)', crate='plain')

server('S28', lambda t: js('h_two', *[100 * v + 10 * b + e for v in range(4) for b in (0, 1, 2) for e in (0, 1) if (v, b, e) != (3, 2, 0)]) + heavy(js('h_two', *q(t, [320, 30, 31], [320, 30, 31, 40, 130, 131]))),
       {},
       {'quick': 'two servers, plain or encrypted, with clients of the same names, any one-letter filter and topic; one is shut down (and started again), a client of it breaks off or sends any two bytes and garbage, its subscriptions are removed; '
                 'every schedule with up to 2 (shutdown: 3) departures', 'thorough': 'up to 4 (shutdown) and 3 departures'},
       'more than two servers')

# ---- the programs ------------------------------------------------------------------------------
server('S24', lambda t: js('h_receive', 0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23) + heavy(js('h_transmit', 0)),
       {'h_receive': ['open', 'ended'], 'h_transmit': ['sent']},
       'three packets (up to 306 bytes, symbolic payloads) received whole, byte by byte, cut at any two places, at the sizes of the buffers; the connection stays, is closed, breaks, or is closed at any '
       'byte of the last packet; three packets sent to a peer that takes any number of bytes first and 1, 21 or 41 at a time afterwards',
       'malformed packets (the client of the benchmark panics on them)', crate='bm')
server('S25', lambda t: js('h_bench', *[10 * d + s for d in range(8) for s in range(5)]) + js('h_report', 111, 112, 121, 211, 122, 212, 221, 113, 213, 119, 219, 1111, 1121, 1211, 1112, 2111, 2112, 2211) +
       heavy(js('h_bench', *q(t, [100, 101, 102, 103, 104, 110, 111, 121, 130, 160], [100 + 10 * d + s for d in range(8) for s in range(5)] + [200, 210])) + js('h_report', *q(t, [], [222, 223, 114]))),
       {},
       {'quick': '1 or 2 subscribers and publishers, 1 to 3 messages, every kind of delay option; for some of these every schedule with 1 departure; every broker latency and every time '
                 'to send of 1 or 2 ms per message',
        'thorough': 'the same with 1 departure for all, and 2 for some'},
       'larger runs; the distribution of random delays', crate='bm')
server('S26', lambda t: js('h_program', 0) + heavy(js('h_program', *q(t, [1], [1, 2]))),
       {'h_program': ['withheld', 'delivered']},
       {'quick': 'three clients on either port each, one of three filters, at once or after three days, every schedule with up to 1 departure', 'thorough': 'up to 2 departures'},
       'logging; a port that is taken (the program then ends)', crate='bm')
