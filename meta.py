#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; run by hand when the property list changes)."""
import json, os, jobs as J
HERE = os.path.dirname(os.path.abspath(__file__))
PK = ['packet/src/packet.rs', 'packet/src/data.rs', 'packet/src/props.rs']
L = []


def P(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    L.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': observe, 'hook_needed': hook}})


FB = 'Packet::from_bytes'
P('D01', 'Decoding any bytes returns, and what it returns can be used',
  'For every byte string, decoding a packet returns either a packet or an error: it never panics, reads out of bounds, overflows or loops '
  'for ever. A packet it returns can be cloned, read through every accessor, re-encoded and asked for its frame length without a panic.',
  ['inputs'], 'every byte string a peer can send',
  'The tests decode a dozen hand-written valid frames; the inputs that matter are the malformed ones nobody wrote down.',
  PK + ['packet/src/*.rs'], [('length checks before every unchecked read', 'packet/src/*.rs deserialize functions'),
                             ('size arithmetic of property lists', 'packet/src/props.rs Properties::deserialize')],
  [FB, 'Packet::to_bytes', 'Packet::frame_len', 'all accessors'])
P('D02', 'A decoded packet is exactly the frame its fixed header declares',
  'When decoding succeeds, the number of bytes consumed is the fixed header plus the declared remaining length, the packet reports the same '
  'frame length, and the bytes that follow the frame in the buffer influence nothing.',
  ['inputs'], 'every byte string, with arbitrary bytes following the frame',
  'A desynchronised stream needs a frame whose inner lengths disagree with its remaining length, or several packets in a buffer; tests decode '
  'one consistent packet per buffer.',
  PK, [('bodies are decoded from a buffer limited to the remaining length', 'packet/src/packet.rs Packet::deserialize'),
       ('per-packet take(length)', 'packet/src/*.rs deserialize')], [FB, 'Buf::remaining', 'Packet::frame_len'])
P('D03', '"Need more bytes" is reported exactly for incomplete frames',
  'Every strict prefix of a valid frame is answered with the insufficient-buffer error, and that error is never given once the whole declared '
  'frame (or an already malformed length) is present; a receiver that waits for more data on this error therefore neither drops a valid '
  'connection nor waits for bytes that cannot help.',
  ['inputs'], 'every byte string and every prefix of every valid frame',
  'The receive loops of server and client are driven by this distinction at arbitrary read boundaries, which tests never produce.',
  PK + ['packet/src/error.rs', 'server-lib/src/clients/mqttclient.rs'], [('InsufficientBuffer', 'packet/src/error.rs'), ('length checks', 'packet/src/*.rs')], [FB])
P('D04', 'Encode then decode gives back the packet',
  'Every packet that the public builders can produce encodes to the bytes MQTT 5 specifies for it, and decoding those bytes gives a packet '
  'with the same type and the same value in every field, flag, reason code, property, topic and payload.',
  ['inputs', 'programs'], 'every packet the public API can build',
  'Tests round-trip one packet per type and compare only bytes, which hides fields lost symmetrically.',
  ['packet/src/*.rs'], [('to_bytes / from_bytes pairs', 'packet/src/*.rs serialize and deserialize')], ['Packet::to_bytes', FB, 'accessors'])
P('D05', 'Announced sizes are the sizes written',
  'For every packet, frame_len is exactly the number of bytes encoding appends, the remaining length field counts exactly the bytes after it, '
  'nested property lengths likewise, and encoding neither depends on nor disturbs what the buffer already holds.',
  ['inputs', 'programs'], 'every packet the public API can build, at every boundary of the length encodings',
  'Size computation and writing are separate code per packet; errors show only at 127/128, 16383/16384 or for particular property types.',
  ['packet/src/*.rs'], [('size / partial_size against serialize', 'packet/src/*.rs')], ['Packet::frame_len', 'Packet::to_bytes'])
P('D06', 'Re-encoding a decoded packet is faithful',
  'Encoding a packet decoded from the wire has the length of the original frame and decodes to an equal packet; where the order of properties '
  'is determined (at most one property) it is byte for byte the original frame.',
  ['inputs'], 'every byte string that decodes',
  'Forwarding depends on this for packets made by other implementations, in encodings the builders here never write.',
  ['packet/src/*.rs'], [('canonical encodings enforced by the decoder', 'packet/src/data.rs')], [FB, 'Packet::to_bytes'])
P('D07', 'Decoding does not depend on how the buffer is cut into chunks',
  'Decoding from a buffer whose bytes lie in several pieces gives the same packet, consumption or error as decoding the same bytes in one piece.',
  ['inputs'], 'every byte string and every two-piece and one-byte-piece cut of it',
  'Every test uses one contiguous buffer, while the decoder is generic over Buf and itself builds chained buffers.',
  PK, [('copying reads instead of chunk()', 'packet/src/data.rs')], [FB])
P('D08', 'Variable byte integers are exact over their whole range',
  'Every value up to 268,435,455 encodes to the minimal 1-4 bytes and decodes back; larger values and non-minimal or overlong encodings are '
  'refused, both as remaining length and as property value.',
  ['inputs'], 'all 2^32 values and all byte sequences of up to 5 bytes',
  'Tests pick some of the boundary values.',
  ['packet/src/data.rs'], [('MqttVariableBytesInt', 'packet/src/data.rs')], [FB, 'MqttPropValue::new_varint', 'Packet::to_bytes'])
P('D09', 'Only valid MQTT text gets in, and all of it does',
  'A string field accepts exactly well-formed UTF-8 of at most 65,535 bytes without control characters (U+0000 included), whether it comes '
  'from the wire or through a builder; binary fields accept exactly up to 65,535 bytes.',
  ['inputs'], 'every string in every string field',
  'Validity of multi-byte sequences and the length limit are checked at separate places for API and wire; tests try a handful of strings.',
  ['packet/src/data.rs', 'packet/src/connect.rs', 'packet/src/publish.rs', 'packet/src/props.rs'],
  [('MqttUtf8String::verify', 'packet/src/data.rs'), ('MqttBinaryData::verify', 'packet/src/data.rs')], [FB, 'builders'])
P('D10', 'The topic grammar is enforced everywhere a topic enters',
  'A topic filter is accepted exactly if "#" appears only as the whole last level and "+" only as a whole level; a topic name is accepted '
  'exactly if it contains neither; both hold in every builder and every decoder, for every position in a list of topics.',
  ['inputs'], 'every topic string at every entry point',
  'Wildcard placement has many corner cases (a+, +a, #/, //#) at six entry points; tests sample few of them.',
  ['packet/src/topic.rs', 'packet/src/subscribe.rs', 'packet/src/unsubscribe.rs', 'packet/src/publish.rs'],
  [('is_valid_topic, is_wildcard', 'packet/src/topic.rs')], [FB, 'Subscribe::add_topic', 'Unsubscribe::add_topic', 'Publish::new', 'MqttTopic::new'])
P('D11', 'Each packet carries exactly the properties its specification allows',
  'A property is accepted by a builder and by a decoder exactly if MQTT 5 lists it for that packet (or will), with its specified value type, and '
  'at most once unless it is repeatable; unknown identifiers are refused.',
  ['inputs', 'configurations'], '27 properties x 14 owners x 8 value types, any values, once or twice',
  'The allowed combinations are a table of about 400 cells; tests touch a few of them.',
  ['packet/src/props.rs'], [('Property::auxiliary_data', 'packet/src/props.rs'), ('checked_insert / is_valid_for', 'packet/src/props.rs')],
  [FB, 'add_prop of every packet'])
P('D12', 'The decoder accepts exactly the well-formed packets, with their meaning',
  'A complete frame decodes exactly if it is well formed in the sense of MQTT 5: fixed header flags, protocol name and version, connect flags, '
  'reason codes of that packet type, QoS, subscription options, property lists and no missing or surplus bytes; the packet then has the '
  'values the specification gives those bytes.',
  ['inputs'], 'every byte string',
  'Acceptance is a predicate over all frames; tests check a few accepted frames and almost no rejected ones.',
  ['packet/src/*.rs'], [('per-packet validation', 'packet/src/*.rs deserialize'), ('reason code tables', 'packet/src/reason.rs')], [FB, 'accessors'])
P('D13', 'A refused setter changes nothing; an accepted one only what it names',
  'After any sequence of setter calls on a packet under construction, with valid and invalid arguments, the packet reads and encodes as the '
  'accepted calls alone determine, and it still round-trips.',
  ['histories'], 'every short sequence of setter calls with valid or invalid arguments',
  'Flags and optional fields are stored separately and must stay consistent after failures and overwrites; tests call each setter once, validly.',
  ['packet/src/connect.rs', 'packet/src/publish.rs', 'packet/src/subscribe.rs'],
  [('flag/field pairs', 'packet/src/connect.rs, publish.rs'), ('size bookkeeping', 'packet/src/props.rs')], ['setters', 'accessors', 'Packet::to_bytes'])
P('D14', 'Any history of property insertions behaves like the specified map',
  'After any sequence of property insertions a non-repeatable property has its last value, the repeatable one all its values in order, and all '
  'encoded lengths agree with the contents.',
  ['histories'], 'every short sequence of insertions with arbitrary values',
  'The encoded size is kept incrementally across replacements; tests insert one or two properties once.',
  ['packet/src/props.rs'], [('Properties::size bookkeeping', 'packet/src/props.rs unchecked_insert')], ['add_prop', 'get_prop', 'props_iter', 'Packet::to_bytes'])

try:
    from meta_server import add, NOT_APPLICABLE, NOTES, HOOKS
    add(P)
except ImportError:
    NOT_APPLICABLE, NOTES, HOOKS = [], '', None


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in L:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    ids = [p['id'] for p in L]
    na = {x['property'] for x in NOT_APPLICABLE}
    assert set(J.PROPS) | na == set(ids), set(J.PROPS) ^ set(ids)
    m = {
        'version': 1,
        'setup_cmd': 'python3 check.py setup',
        'checks': [{
            'property': i,
            'quick_cmd': 'python3 check.py run ' + i,
            'thorough_cmd': 'python3 check.py run %s --tier thorough' % i,
            'technique': 'symbolic execution of the compiled LLVM IR with an SMT solver (z3), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': J.PROPS[i].get('note') or
            ('' if i[0] == 'D' else 'Inputs and schedules symbolic; schedules bounded by number of departures from a default order; runtime, network, clock and '
             'snow are simulated (assumptions in the evidence). ') + 'Bounded: holds for every input within the bounds listed in the evidence file (all feasible paths of the real code explored, '
            'each path condition decided by solver or exact domain tables); says nothing beyond them. Trusts rustc, the engine in '
            '/verif/engine, z3, and the harness oracle.',
        } for i in ids if i in J.PROPS],
        'not_applicable': NOT_APPLICABLE,
    }
    if HOOKS:
        m['hooks'] = HOOKS
    if NOTES:
        m['notes'] = NOTES
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
