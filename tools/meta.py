"""Writes properties.jsonl and MANIFEST.json (run by hand when either changes)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIS = 'opendis/dis7.py'
STREAM = 'opendis/stream.py'
FACTORY = 'opendis/PduFactory.py'
REC = 'opendis/record/__init__.py'
RADIO = 'opendis/record/radio/__init__.py'
WAR = 'opendis/record/warfare/__init__.py'
BASE = 'opendis/record/base.py'
BITF = 'opendis/record/bitfield.py'
COMMON = 'opendis/record/common.py'
DR = 'opendis/DeadReckoning.py'
RC = 'opendis/RangeCoordinates.py'
CODEC = 'symbolic execution of the real Python sources (recompiled from /repo each run) with z3 bit-vectors'
REALS = 'symbolic execution of the real Python sources over exact reals with z3 nonlinear arithmetic'
CODEC_NOTE = ('Every field value is symbolic; list lengths, cut points and alternatives are case-split up to the '
              'stated bounds. Trusted: z3, the models of struct/io/ctypes/bytes (sampled by replaying path witnesses '
              'on CPython), the hand-written layout tables where the property needs an oracle.')
REALS_NOTE = ('Inputs are exact reals, trigonometric pairs constrained by s^2+c^2=1; floating-point rounding is '
              'outside the claim. Trusted: z3, the numpy/math models (sampled by replaying witnesses on CPython and '
              'numpy within a tolerance).')

P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), observe=(), kind='codec', na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=mech, observe=list(observe), kind=kind, na=na, note=note))


prop('C01', 'Decoding then encoding a PDU or record reproduces its octets',
     'For every PDU class and every record class, decoding any well-formed encoding (reserved octets zero, counts and '
     'lengths consistent) and encoding the result yields exactly the octets received, header included.',
     'all values of all fields of the 54 registered PDUs, the 2 unregistered ones and every record class; any numbers '
     'of list elements, any alternative of the variable parts',
     'The tests decode 10 captured packets and mostly check a few attributes; no test re-encodes most classes, and '
     'a swapped, truncated or sign-damaged field shows only for particular values.',
     [DIS, STREAM, REC, RADIO, WAR, COMMON],
     [('serialize/parse pairs', DIS), ('DataInputStream/DataOutputStream', STREAM)],
     observe=['createPdu, <class>.parse, <class>.serialize'])
prop('C02', 'Encoding then decoding gives back an equal object',
     'For every PDU and record class, any object whose attributes hold values of their documented widths, once '
     'encoded and decoded, yields an object of the same class whose public attributes all have the same values, '
     'nested records and list elements in order. Encoding leaves the original object as it was.',
     'all values of all attributes, any numbers of list elements, any alternative of the variable parts',
     'The round-trip tests cover a handful of classes with one value each.',
     [DIS, STREAM, REC, RADIO, WAR, COMMON],
     [('serialize/parse pairs', DIS), ('PduTypeDecoders', FACTORY)],
     observe=['createPdu(serialize(p))'])
prop('C03', 'Stream primitives are exact big-endian inverses of fixed width',
     'Each stream write of a value in range emits exactly the big-endian octets of its width, the matching read '
     'returns that value and consumes exactly those octets, and writes in sequence are read back in sequence. '
     'Integers out of range, reads past the end of the data, and text whose declared length exceeds the data raise; '
     'unsigned reads never give a negative value.',
     'all values of every primitive type, out-of-range integers, all octet patterns, all short inputs',
     'The tests exercise one or two values per primitive; boundary values (sign bit, 2^63..2^64-1) are not reached.',
     [STREAM], [('read_*/write_*', STREAM)], observe=['DataInputStream.read_*', 'DataOutputStream.write_*'])
prop('C04', 'Every field sits at its DIS wire position with its width and byte order',
     'Each PDU and record encodes to the layout of the DIS standard: every field at its offset, in its width, '
     'signedness and big-endian order, counts and lengths before the data they describe, reserved octets zero. '
     'Decoding reads each attribute from that same position.',
     'all values of all fields of all PDU and record classes, any numbers of list elements',
     'A symmetric mistake (two fields swapped in both directions, a wrong width in both) survives every round-trip '
     'test; only 10 captured packets pin layouts.',
     [DIS, STREAM, RADIO, WAR, COMMON], [('serialize and parse of each class', DIS)],
     observe=['octets of serialize', 'attributes after createPdu'])
prop('C05', 'The PDU type octet alone selects the decoder',
     'Data whose third octet is a supported PDU type is decoded as the class of that type whatever the other header '
     'octets are; for every other type octet the factory returns None without raising. Decoding from memory, from a '
     'stream and from a file give the same result.',
     'all 256 type octets, all header contents, all three entry points',
     'The tests decode 10 of 54 types and no unsupported type.',
     [FACTORY], [('PduTypeDecoders, getPdu', FACTORY)],
     observe=['createPdu', 'getPdu', 'createPduFromFilePath'])
prop('C06', 'Truncated input is refused and trailing octets are left alone',
     'Decoding any strict prefix of a well-formed PDU or record raises instead of returning an object with missing '
     'or invented values. Decoding a complete one consumes exactly its own octets, and octets after it change nothing.',
     'every cut point of every PDU and record class, all field values, any trailing octets',
     'No test decodes truncated data; whether a short read is noticed depends on where the cut falls.',
     [STREAM, DIS, FACTORY], [('struct.unpack on short reads', STREAM)],
     observe=['createPdu', 'stream position after parse'])
prop('C07', 'Count fields and list lengths always agree',
     'The count or length an encoded PDU or record declares for a list is the number of elements it holds, for any '
     'number its field can express; a longer list raises instead of wrapping round. Decoding yields exactly as many '
     'elements as declared, or raises when they are not there.',
     'any list length (0..70000), any declared count against the elements present, for every counted list',
     'Counts of 0..2 are all the tests reach; sign and width errors appear at 128, 256 or 65536.',
     [DIS, REC, WAR], [('len(...) written before each list, range(count) on parse', DIS)],
     observe=['count octets', 'len of decoded lists'])
prop('C08', 'Standard variable records declare the octets they emit; unknown ones survive',
     'A standard variable record is emitted as its type, its length and its content, where the declared length, the '
     'reported size and the octets emitted are the same multiple of 8. Known types decode to their class, unknown '
     'types keep type and data, and the records after them stay in step; a declared length that is not a multiple of '
     '8, below the 6 header octets or beyond the data, and a known type of the wrong family, are refused.',
     'all record types and contents, all declared lengths of unknown records, sequences of records',
     'Each record class has at most one example in the tests; no unknown record type is decoded.',
     [BASE, REC, RADIO, WAR, DIS],
     [('StandardVariableRecord', BASE), ('getStandardVariableClass', REC), ('parseStandardVariableRecord', DIS)],
     observe=['serialize, marshalledSize, recordLength', 'parse of record lists'])
prop('C09', 'Variable datums keep values of any bit length and their 64-bit padding',
     'A variable datum of any bit length encodes as identifier, bit length, the octets holding those bits, and zero '
     'padding to a multiple of 64 bits; decoding returns those octets and leaves the stream at the next datum. A '
     'datum announcing more than the data holds is refused.',
     'every bit length up to 1040 (and around 2^11, 8000), every value; every 32-bit declared length over short data',
     'The tests use one or two byte-aligned lengths; the padding arithmetic has its corner cases between them.',
     [DIS], [('VariableDatum.serialize/parse', DIS)], observe=['VariableDatum', 'PDUs carrying datum lists'])
prop('C10', 'Bit fields occupy their own bits and nothing else',
     'Each bit-field record packs its fields most significant bit first without overlap: every value in range is read '
     'back exactly, every octet pattern survives decoding and encoding for records without reserved bits, and a value '
     'too wide for its field never alters another field. A bit-field definition that is not whole octets is refused.',
     'all values of all bit-field records; all splits of 8 bits in up to 4 fields, of 16 and 32 bits in 2 or 3',
     'Tests check a few values of two records; a shifted or overlapping field needs the neighbour bits set to show.',
     [BITF, RADIO, 'opendis/record/warfare/enums.py'], [('bitfield factory', BITF)],
     observe=['SpreadSpectrum, NetId, DEFireFlags', 'bitfield()'])
prop('C11', 'Transmitter modulation and antenna parameters keep kind, length and octets',
     'In a Transmitter PDU the radio system selects the modulation parameters record and the antenna pattern type '
     'selects the antenna record; a kind the package does not know is kept octet for octet with its declared length. '
     'The declared lengths are the octets emitted, whatever was set before, and a record too long for its length '
     'field is refused.',
     'all radio systems and pattern types, all contents, all declared lengths of unknown records',
     'The tests decode one Transmitter packet.',
     [DIS, RADIO], [('TransmitterPdu.serialize/parse', DIS), ('UnknownRadio, UnknownAntennaPattern', RADIO)],
     observe=['TransmitterPdu'])
prop('C12', 'Entity marking text is stored, sent and received exactly',
     'Setting an ASCII text on an entity marking stores its first 11 characters, zero-filled, replacing whatever was '
     'there before, without touching other markings; the same text is read back, locally and by a receiver of the '
     'Entity State PDU. The octets of any received marking are kept.',
     'every ASCII text (characters 1..127) of any length up to 23, any previous content, any 12 received octets',
     'One marking string is tested.', [DIS], [('EntityMarking', DIS)],
     observe=['EntityMarking.setString, charactersString'])
prop('C13', 'Constructors keep the values they are given',
     'Every PDU and record can be built without arguments and encodes; every constructor argument given, zero '
     'included, is the value of the attribute it names and the value sent.',
     'all values of all constructor arguments of all classes', 'Few constructors are called with arguments in tests.',
     [DIS, RADIO, WAR, COMMON], [('__init__ of each class', DIS)], observe=['constructors'])
prop('C14', 'Objects do not share state and encoding changes nothing',
     'Changing or decoding into one object never changes another, existing or created later, of the same or another '
     'class; decoding leaves the caller\'s data as it was. Encoding an object any number of times gives the same '
     'octets and leaves every attribute as it was.',
     'all values; histories of construct, change, decode and encode on two or three objects',
     'Each test uses one object; shared defaults show only on the second.',
     [DIS, RADIO, WAR, COMMON, REC], [('"or" defaults in __init__', DIS)], over=('inputs', 'histories'),
     observe=['serialize of the other objects'])
prop('C15', 'Every PDU carries its own type and family in a 12-octet header',
     'A new PDU of each class has protocol version 7, its own PDU type and protocol family, and encodes to a header '
     'of 12 octets followed by its body; what it encodes to is decoded as its own class. Each header value set is '
     'sent at its place, received unchanged, and does not influence the body.',
     'all header values for all PDU classes', 'The header of most classes is never encoded by a test.',
     [DIS, FACTORY], [('PduSuperclass, Pdu and the family classes', DIS)], observe=['serialize', 'createPdu'])
prop('C28', 'Reserved bits of received data disturb nothing',
     'Whatever a received PDU or record carries in its reserved octets and reserved bits, decoding it gives the same '
     'field values, consumes the same octets and never raises; encoding the result again succeeds, gives the same '
     'length, the field octets as received, and each reserved octet either as received or zero.',
     'all contents of all reserved octets and bit fields of every PDU and record class, all field values',
     'Every packet in the tests has zero padding.', [DIS, RADIO, WAR, COMMON, REC],
     [('padding attributes and discarded reads in parse', DIS)], observe=['createPdu, <class>.parse, serialize'])
prop('C29', 'The size a record reports is the number of octets it emits',
     'Every record with marshalledSize (and recordLength) reports exactly the octets it emits, whether new, '
     'constructed with values, changed afterwards or decoded; a decoded one reports the octets it was decoded from. '
     'Records of undescribed content take exactly the given number of octets; a negative length or one beyond the '
     'data is refused.',
     'all values, list lengths and changes of every record class that reports a size; all 16-bit lengths',
     'The tests compare sizes of a few records with one value each.', [REC, RADIO, WAR, COMMON, BASE, BITF],
     [('marshalledSize', REC), ('marshalledSize', RADIO), ('marshalledSize', WAR)],
     observe=['marshalledSize, recordLength, serialize'])
prop('C25', 'Geodetic coordinates survive the trip through ECEF',
     'Converting latitude, longitude and altitude to earth-centred coordinates and back returns the same values '
     'within the documented accuracy.',
     'all positions', 'The tests sample a few positions.', [RC], [('GPS.ecef2lla', RC)], kind='na',
     na='The inverse is an iterative approximation over floats whose loop ends on a tolerance; its correctness is a '
        'numerical convergence claim over transcendental functions, which no solver here decides. The forward '
        'direction is C20.')
prop('C26', 'The example sender and receiver exchange PDUs over UDP',
     'What the example sender transmits, the example receiver prints.',
     'all network schedules', 'No test runs the examples.', ['examples/dis_sender.py', 'examples/dis_receiver.py'],
     [('sockets', 'examples')], kind='na', over=('schedules',),
     na='The behaviour is that of sockets and the network, outside the repository; the encoding and decoding they '
        'call are C01, C02 and C05.')

if __name__ == '__main__':
    import importlib.util
    extra = os.path.join(HERE, 'tools', 'meta_num.py')
    if os.path.exists(extra):
        exec(open(extra).read())
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                             'observe_at': p['observe'], 'hook_needed': None}}
            f.write(json.dumps(d) + '\n')
    m = {'version': 1,
         'setup_cmd': 'python3-vt -B -c "import z3, sx.run" && /opt/venv/bin/python -B -c "import numpy"',
         'checks': [], 'not_applicable': [],
         'notes': 'Each check recompiles /repo/opendis from its current sources; nothing is cached. No hooks in /repo.'}
    for p in P:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
            continue
        m['checks'].append({
            'property': p['id'],
            'quick_cmd': 'python3-vt -B -m sx.run %s quick' % p['id'],
            'thorough_cmd': 'python3-vt -B -m sx.run %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': CODEC if p['kind'] == 'codec' else REALS, 'level': 'model_checking',
            'level_note': p['note'] or (CODEC_NOTE if p['kind'] == 'codec' else REALS_NOTE)})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
