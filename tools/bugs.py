"""The planted bugs: (id, property, file, [(old, new)], needs, breaks, demo).
tools/plant.py turns each into /verif/seeded/<id>/.  No check reads any of this."""
D = 'opendis/dis7.py'
S = 'opendis/stream.py'
R = 'opendis/RangeCoordinates.py'
K = 'opendis/DeadReckoning.py'
F = 'opendis/PduFactory.py'
BUGS = []


def bug(ident, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=ident, property=prop, file=file, edits=edits, needs=needs,
                     what_it_breaks=breaks, demo=demo))


bug('s01-country-signed', 'C01', D,
    [("        self.altCountry = inputStream.read_unsigned_short()\n",
      "        self.altCountry = inputStream.read_short()\n")],
    'a FastEntityStatePdu whose alternative country is 32768 or more',
    'the decoded country is negative and the PDU cannot be encoded again',
    '''
from opendis.dis7 import FastEntityStatePdu
for c in (0, 1, 32767, 32768, 65535):
    p = FastEntityStatePdu(altCountry=c)
    d = enc(p)
    q = FastEntityStatePdu(); dec(q, d)
    assert enc(q) == d
''')

bug('s02-char-signed', 'C03', S,
    [("        return chr(struct.unpack('>H', self.stream.read(2))[0])\n",
      "        return chr(struct.unpack('>h', self.stream.read(2))[0])\n")],
    'a 16-bit character of 0x8000 or more',
    'read_char fails on characters that write_char has written',
    '''
for c in ('a', '\\u7fff', '\\u8000', '\\uffff'):
    o = out(); o.write_char(c)
    assert inp(o.stream.getvalue()).read_char() == c
''')

bug('s04-utf-length', 'C03', S,
    [("        utf_length = struct.unpack('>H', self.stream.read(2))[0]\n",
      "        utf_length = struct.unpack('>h', self.stream.read(2))[0]\n")],
    'a string of 32768 octets or more', 'read_utf reads up to the end or fails on long strings',
    '''
for n in (0, 1, 300, 40000):
    o = out(); o.write_utf(b'x' * n); o.write_uint8(7)
    i = inp(o.stream.getvalue())
    assert i.read_utf() == b'x' * n and i.read_uint8() == 7
''')

bug('s05-sweep-swapped', 'C04', D,
    [("        outputStream.write_float(self.beamElevationCenter)\n        outputStream.write_float(self.beamElevationSweep)\n",
      "        outputStream.write_float(self.beamElevationSweep)\n        outputStream.write_float(self.beamElevationCenter)\n"),
     ("        self.beamElevationCenter = inputStream.read_float()\n        self.beamElevationSweep = inputStream.read_float()\n",
      "        self.beamElevationSweep = inputStream.read_float()\n        self.beamElevationCenter = inputStream.read_float()\n")],
    'comparison with the DIS layout: encoder and decoder agree with each other',
    'beam elevation centre and sweep are exchanged on the wire',
    '''
from opendis.dis7 import EEFundamentalParameterData
p = EEFundamentalParameterData(beamElevationCenter=1.0, beamElevationSweep=2.0)
import struct
d = enc(p)
assert d.index(struct.pack('>f', 1.0)) < d.index(struct.pack('>f', 2.0))
''')

bug('s06-type-octet-abs', 'C05', F,
    [("    if pduType in PduTypeDecoders.keys():\n        Decoder = PduTypeDecoders[pduType]\n",
      "    if abs(pduType) in PduTypeDecoders:\n        Decoder = PduTypeDecoders[abs(pduType)]\n")],
    'a type octet of 187 or more, the complement of a supported type',
    'data of an unsupported type is decoded as another PDU',
    '''
from opendis.PduFactory import createPdu
from opendis.dis7 import EntityStatePdu
d = bytearray(enc(EntityStatePdu()))
assert type(createPdu(bytes(d))) is EntityStatePdu
for t in (0, 100, 200, 254, 255):
    d[2] = t
    assert createPdu(bytes(d)) is None, t
''')

bug('s07-cut-padding', 'C06', D,
    [("        for x in range(self.datumPaddingSizeInBits() // 8):\n            inputStream.read_unsigned_byte()\n",
      "        inputStream.stream.read(self.datumPaddingSizeInBits() // 8)\n")],
    'a datagram cut inside the padding of its last variable datum',
    'a truncated PDU is accepted',
    '''
from opendis.dis7 import VariableDatum
d = enc(VariableDatum(1, 8, [5]))
dec(VariableDatum(), d)
for n in range(len(d)):
    try:
        dec(VariableDatum(), d[:n])
    except Exception:
        continue
    raise SystemExit('accepted %d octets of %d' % (n, len(d)))
''')

bug('s08-beam-count-wraps', 'C07', D,
    [("        outputStream.write_unsigned_byte(self.numberOfBeams)\n",
      "        outputStream.write_unsigned_byte(self.numberOfBeams & 0xff)\n")],
    'an emission system with 256 beams or more',
    'the beam count wraps round instead of raising',
    '''
from opendis.dis7 import EmissionSystemRecord, EmissionSystemBeamRecord
for n in (0, 1, 255, 256, 257):
    r = EmissionSystemRecord(beamRecords=[EmissionSystemBeamRecord()] * n)
    try:
        d = enc(r)
    except Exception:
        assert n > 255
        continue
    assert d[1] == n
''')

bug('s09-unknown-class-shared', 'C08', 'opendis/record/__init__.py',
    [("    UnknownStandardVariableRecord.recordType = recordType\n    vrClass = __variableRecordClasses.get(\n        recordType,\n        UnknownStandardVariableRecord\n    )\n",
      "    vrClass = __variableRecordClasses.get(recordType)\n    if vrClass is None:\n        vrClass = __unknownRecordClasses.setdefault(\n            expectedType,\n            UnknownStandardVariableRecord\n        )\n        vrClass.recordType = recordType\n"),
     ("def getStandardVariableClass(\n",
      "# Placeholder classes by expected type\n__unknownRecordClasses: dict[type, type] = {}\n\n\ndef getStandardVariableClass(\n")],
    'two unknown records of different types alive at the same time',
    'all unknown records are encoded with the type seen last',
    '''
from opendis.record import getStandardVariableClass
a = getStandardVariableClass(77)(b'\\0\\1')
b = getStandardVariableClass(78)(b'\\0\\2')
assert a.recordType == 77 and b.recordType == 78
assert enc(a)[:4] == bytes([0, 0, 0, 77]) and enc(b)[:4] == bytes([0, 0, 0, 78])
''')

bug('s10-datum-padding', 'C09', D,
    [("        for x in range(self.datumPaddingSizeInBits() // 8):\n            outputStream.write_unsigned_byte(0)\n",
      "        for x in range((self.datumPaddingSizeInBits() + 7) // 8):\n            outputStream.write_unsigned_byte(0)\n"),
     ("        for x in range(self.datumPaddingSizeInBits() // 8):\n            inputStream.read_unsigned_byte()\n",
      "        for x in range((self.datumPaddingSizeInBits() + 7) // 8):\n            inputStream.read_unsigned_byte()\n")],
    'a datum whose bit length is not a multiple of 8',
    'the datum is padded past the 64-bit boundary; encoder and decoder agree',
    '''
from opendis.dis7 import VariableDatum
for bits in range(1, 130):
    n = (bits + 7) // 8
    assert len(enc(VariableDatum(1, bits, [9] * n))) == 8 + (bits + 63) // 64 * 8, bits
''')

bug('s11-netid-mode-table', 'C10', 'opendis/record/radio/__init__.py',
    [("        (\"frequencyTable\", bitfield.INTEGER, 2),\n        (\"mode\", bitfield.INTEGER, 2),\n",
      "        (\"mode\", bitfield.INTEGER, 2),\n        (\"frequencyTable\", bitfield.INTEGER, 2),\n"),
     ("            self.netNumber,\n            self.frequencyTable,\n            self.mode,\n",
      "            self.netNumber,\n            self.mode,\n            self.frequencyTable,\n")],
    'comparison with the DIS layout: encoder and decoder agree with each other',
    'mode and frequency table of a net id are exchanged on the wire',
    '''
from opendis.record import NetId
assert enc(NetId(1, 2, 1)) == bytes([0, 0b01100100])
''')

bug('s12-unknown-radio-words', 'C11', D,
    [("                radio.parse(inputStream, bytelength=modulationParametersLength)\n",
      "                radio.parse(inputStream,\n                            bytelength=modulationParametersLength // 8 * 8)\n")],
    'modulation parameters of an unknown kind with a length that is no multiple of 8',
    'the last octets of the parameters are dropped and what follows is read from the wrong place',
    '''
from opendis.dis7 import TransmitterPdu
from opendis.record import UnknownRadio, ModulationType
for n in (8, 12, 16, 20):
    p = TransmitterPdu(modulationType=ModulationType(radioSystem=9),
                       modulationParameters=UnknownRadio(bytes(range(n))))
    q = TransmitterPdu(); dec(q, enc(p))
    assert q.modulationParameters.data == bytes(range(n)), n
''')

bug('s13-radio-system-range', 'C11', D,
    [("            elif self.modulationType.radioSystem in (2, 3, 4):  # HAVE QUICK I | II | HAVE QUICK IIA\n",
      "            elif 2 <= self.modulationType.radioSystem < 6:  # HAVE QUICK I | II | HAVE QUICK IIA\n")],
    'a transmitter with radio system 5 (SINCGARS) and modulation parameters',
    'its parameters are decoded as HAVE QUICK parameters',
    '''
from opendis.dis7 import TransmitterPdu
from opendis.record import UnknownRadio, ModulationType
for s in (5, 7, 8):
    p = TransmitterPdu(modulationType=ModulationType(radioSystem=s),
                       modulationParameters=UnknownRadio(b'\\xff' * 24))
    q = TransmitterPdu(); dec(q, enc(p))
    assert q.modulationParameters.data == b'\\xff' * 24 and enc(q) == enc(p)
''')

bug('s14-marking-tail', 'C12', D,
    [("        for idx in range(0, 11):\n            if idx < len(new_str):\n                self.characters[idx] = ord(new_str[idx])\n            else:\n                self.characters[idx] = 0\n",
      "        for idx in range(0, min(len(new_str) + 1, 11)):\n            if idx < len(new_str):\n                self.characters[idx] = ord(new_str[idx])\n            else:\n                self.characters[idx] = 0\n")],
    'a marking set twice, the second text shorter by two characters or more',
    'the tail of the first text stays after the terminator and is sent',
    '''
from opendis.dis7 import EntityMarking
m = EntityMarking()
m.setString('ABCDEFGH'); m.setString('xy')
assert m.charactersString() == 'xy'
assert enc(m)[1:] == b'xy' + bytes(9)
''')

bug('s15-munition-station', 'C13', D,
    [("        self.station = station\n        \"\"\"the station or launcher to which the munition is assigned. See Annex I\"\"\"\n        self.quantity = quantity\n",
      "        self.station = station\n        \"\"\"the station or launcher to which the munition is assigned. See Annex I\"\"\"\n        self.quantity = quantity or 1\n")],
    'a munition created with a quantity of 0', 'a quantity of zero is stored and sent as one',
    '''
from opendis.dis7 import Munition
assert Munition(quantity=0).quantity == 0
assert Munition(quantity=5).quantity == 5
''')

bug('s16-shared-marking', 'C14', D,
    [("        self.marking = marking or [0] * 12\n", "        self.marking = marking or FastEntityStatePdu.noMarking\n"),
     ("    pduType: enum8 = 1  # [UID 4]\n\n    def __init__(self,\n                 site=0,\n",
      "    pduType: enum8 = 1  # [UID 4]\n    noMarking = [0] * 12\n\n    def __init__(self,\n                 site=0,\n")],
    'two PDUs created without a marking, one of them then marked in place',
    'marking one PDU marks all others', '''
from opendis.dis7 import FastEntityStatePdu
a, b = FastEntityStatePdu(), FastEntityStatePdu()
a.marking[0] = 65
assert b.marking[0] == 0 and FastEntityStatePdu().marking[0] == 0
''')

bug('s17-encode-extends-data', 'C14', D,
    [("        for x in range(self.datumPaddingSizeInBits() // 8):\n            outputStream.write_unsigned_byte(0)\n",
      "        padding = [0] * (self.datumPaddingSizeInBits() // 8)\n        self.variableData += padding\n        for octet in padding:\n            outputStream.write_unsigned_byte(octet)\n")],
    'looking at the datum after it has been encoded',
    'encoding appends the padding to the data of the datum',
    '''
from opendis.dis7 import VariableDatum
v = VariableDatum(1, 24, [1, 2, 3])
a = enc(v)
assert v.variableData == [1, 2, 3] and enc(v) == a
''')

bug('s18-negative-dt', 'C16', K,
    [("    # Position extrapolation with acceleration\n    new_position = pos + vel * dt + 0.5 * acc * (dt ** 2)\n",
      "    # Position extrapolation with acceleration\n    new_position = pos + (vel + 0.5 * acc * abs(dt)) * dt\n")],
    'a negative time step with an acceleration',
    'going back in time applies the acceleration with the wrong sign',
    '''
from opendis.DeadReckoning import drm_rvw
for t in (2.0, -2.0):
    p, _ = drm_rvw([0, 0, 0], [0, 0, 0], [1.0, 0, 0], t, [0, 0, 0], [0, 0, 0])
    assert abs(p[0] - 2.0) < 1e-9
''')

bug('s19-rotation-r32', 'C17', K,
    [("    r32 = c_theta * s_phi\n", "    r32 = s_phi\n")],
    'an attitude with pitch and roll both nonzero',
    'the rotation is no longer orthonormal',
    '''
import numpy as np
from opendis.DeadReckoning import get_rotation_matrix
r = get_rotation_matrix(0.3, 0.7, -0.4)
assert np.allclose(r @ r.T, np.eye(3))
''')

bug('s20-gimbal-backwards', 'C18', K,
    [("    if abs(c_theta) < 1e-6:\n", "    if c_theta < 1e-6:\n")],
    'a pitch angle beyond 90 degrees, as reached by integrating a loop',
    'any attitude past the vertical is treated as gimbal lock',
    '''
from opendis.DeadReckoning import drm_rpw
_, o = drm_rpw([0] * 3, [0] * 3, 0.5, [0, 2.5, 0.0], [0, 0, 1.0])
import math
assert abs(o[0] - 0.5 / math.cos(2.5)) < 1e-9
''')

bug('s21-aliasing', 'C19', K,
    [("    return np.array(v, dtype=float)\n", "    return np.asarray(v, dtype=float)\n")],
    'numpy arguments and a caller that writes into the result',
    'the static algorithm hands the argument itself back',
    '''
import numpy as np
from opendis.DeadReckoning import drm_static
p = np.array([1.0, 2.0, 3.0])
r, _ = drm_static(p, [0, 0, 0])
r[0] = 9
assert p[0] == 1.0
''')

bug('s22-origin-altitude', 'C20', R,
    [("            x0, y0, z0 = self.lla2ecef((lat0, lon0, a0))\n",
      "            x0, y0, z0 = self.lla2ecef((lat0, lon0, 0))\n")],
    'an origin string with a nonzero altitude', 'the altitude of the origin is ignored',
    '''
from opendis.RangeCoordinates import GPS
g = GPS()
p = g.lla2gcc((45, 45, 120.0), '45 45 120')
assert max(map(abs, p)) < 1e-6
''')

bug('s23-western-origin', 'C21', R,
    [("        lon = deg2rad(llaOrigin[1])\n        Rt2e = array(",
      "        lon = deg2rad(llaOrigin[1]) % pi\n        Rt2e = array(")],
    'an origin in the western hemisphere',
    'ned2ecef turns north and east by half a turn there and no longer undoes ecef2ned',
    '''
from opendis.RangeCoordinates import GPS
g = GPS()
for lon in (10, -100):
    o = g.lla2ecef((30, lon, 100))
    e = (o[0] + 10, o[1] - 20, o[2] + 30)
    b = g.ned2ecef(g.ecef2ned(e, o), o)
    assert max(abs(x - y) for x, y in zip(b, e)) < 1e-5
''')

bug('s24-elevation-asin', 'C22', R,
    [("        epsilon = atan2(-ned[2], sqrt(ned[0]**2 + ned[1]**2))\n",
      "        epsilon = asin(-ned[2] / p)\n")],
    'the target at the origin', 'ned2pae divides by zero',
    '''
from opendis.RangeCoordinates import GPS
p = GPS().ned2pae((0.0, 0.0, 0.0))
assert p[0] == 0
''')

bug('s25-small-angles', 'C23', R,
    [("        return (1 - cos(theta)) * nnt + cos(theta) * self._IDENTITY_3X3 + sin(theta) * n_x\n",
      "        c, s = cos(theta), sin(theta)\n        if 1 - c < 1e-8:\n            return self._IDENTITY_3X3\n        return (1 - c) * nnt + c * self._IDENTITY_3X3 + s * n_x\n")],
    'a rotation by less than 0.14 mrad', 'small rotations are dropped altogether',
    '''
import numpy as np
from opendis.RangeCoordinates import GPS
r = GPS().rotate_3x3(1e-4, np.array([0, 0, 1]))
assert abs(r[1][0] - 1e-4) < 1e-9
''')

bug('s26-svalbard-edge', 'C24', R,
    [("            elif 9. <= lon < 21.: zoneNumber = 33\n", "            elif 9. <= lon <= 21.: zoneNumber = 33\n")],
    'longitude 21 exactly, between latitudes 72 and 84',
    'the point is put into zone 33 and not 35',
    '''
from opendis.RangeCoordinates import GPS
for lon, z in ((8.9, '31X'), (9.0, '33X'), (20.9, '33X'), (21.0, '35X'), (33.0, '37X')):
    assert GPS().lla2utm((75.0, lon, 0))[1][0] == z, lon
''')

bug('s27-band-edge', 'C24', R,
    [("        elif -24 <= lat < -16: return 'K'\n        elif -16 <= lat < -8: return 'L'\n        elif -8 <= lat < 0: return 'M'\n",
      "        elif -24 <= lat < -16: return 'K'\n        elif -16 < lat < -8: return 'L'\n        elif -8 <= lat < 0: return 'M'\n")],
    'latitude -16 exactly', 'the band letter is Z',
    '''
from opendis.RangeCoordinates import GPS
assert GPS().lla2utm((-16.0, 10.0, 0))[1][0] == '32L'
assert GPS().lla2utm((-24.0, 10.0, 0))[1][0] == '32K'
''')

bug('s28-south-pole-altitude', 'C27', R,
    [("                return (-90.00, 69.00, round(-z - self.wgs84.b, 2))\n",
      "                return (-90.00, 69.00, round(z + self.wgs84.b, 2))\n")],
    'a point on the axis south of the earth', 'its altitude has the wrong sign',
    '''
from opendis.RangeCoordinates import GPS, WGS84
l = GPS().ecef2lla((0, 0, -WGS84.b - 1000))
assert l[0] == -90 and l[2] == 1000
''')

bug('s30-header-status', 'C15', D,
    [("    pduType: enum8 = 62  # [UID 4]\n", "    pduType: enum8 = 22  # [UID 4]\n")],
    'a CommentReliablePdu that is sent', 'it announces itself as the PDU type of the unreliable comment',
    '''
from opendis.dis7 import CommentReliablePdu
from opendis.PduFactory import createPdu
p = CommentReliablePdu()
assert p.pduType == 62 and type(createPdu(enc(p))) is CommentReliablePdu
''')

bug('s31-silent-aggregate-order', 'C02', D,
    [("        for idx in range(0, numberOfSilentAggregateSystems):\n            element = SilentAggregateSystem()\n            element.parse(inputStream)\n            self.silentAggregateSystems.append(element)\n",
      "        for idx in range(0, numberOfSilentAggregateSystems):\n            element = SilentAggregateSystem()\n            element.parse(inputStream)\n            self.silentAggregateSystems.insert(0, element)\n")],
    'an aggregate with two or more silent aggregates',
    'the decoded list is in reverse order',
    '''
from opendis.dis7 import AggregateStatePdu, SilentAggregateSystem
p = AggregateStatePdu(silentAggregateSystems=[SilentAggregateSystem(numberOfAggregates=n) for n in (1, 2, 3)])
q = AggregateStatePdu(); dec(q, enc(p))
assert [s.numberOfAggregates for s in q.silentAggregateSystems] == [1, 2, 3]
''')

bug('s32-track-jam-shared', 'C02', D,
    [("        for idx in range(0, numberOfTargetsInTrackJam):\n            element = TrackJamData()\n            element.parse(inputStream)\n            self.trackJamRecords.append(element)\n",
      "        element = TrackJamData()\n        for idx in range(0, numberOfTargetsInTrackJam):\n            element.parse(inputStream)\n            self.trackJamRecords.append(element)\n")],
    'a beam with two track/jam records or more that differ',
    'all of them show the values of the last',
    '''
from opendis.dis7 import EmissionSystemBeamRecord, TrackJamData
p = EmissionSystemBeamRecord(trackJamRecords=[TrackJamData(emitterNumber=n) for n in (1, 2)])
q = EmissionSystemBeamRecord(); dec(q, enc(p))
assert [t.emitterNumber for t in q.trackJamRecords] == [1, 2]
''')

bug('s33-datum-aligned', 'C09', D,
    [("        for x in range(self.datumPaddingSizeInBits() // 8):\n            outputStream.write_unsigned_byte(0)\n",
      "        while outputStream.stream.tell() % 8:\n            outputStream.write_unsigned_byte(0)\n")],
    'a variable datum that starts away from a multiple of 8 octets in its stream: CommentPdu and friends start them '
    'at one, records encoded behind others do not',
    'the padding aligns the stream and not the datum',
    '''
from opendis.dis7 import VariableDatum
for n in (0, 1, 8, 9):
    for before in (0, 1, 4, 8):
        o = out()
        o.write_bytes(b'\\0' * before)
        VariableDatum(variableDatumLength=8 * n, variableData=[7] * n).serialize(o)
        assert len(o.stream.getvalue()) == before + 8 + (n + 7) // 8 * 8
''')

bug('s34-bytes-only', 'C14', F,
    [("    memoryStream = io.BytesIO(data)\n",
      "    memoryStream = io.BytesIO(data if isinstance(data, bytes) else data.encode('latin-1'))\n")],
    'a receive buffer that is a bytearray (recv_into)', 'createPdu raises on a buffer it used to decode',
    '''
from opendis.dis7 import FirePdu
from opendis.PduFactory import createPdu
d = enc(FirePdu())
assert type(createPdu(bytearray(d))) is FirePdu and type(createPdu(d)) is FirePdu
''')

bug('s35-reserved-signed', 'C28', D,
    [("        self.padding2 = inputStream.read_unsigned_short()\n        self.targetEntityID.parse(inputStream)\n",
      "        self.padding2 = inputStream.read_short()\n        self.targetEntityID.parse(inputStream)\n")],
    'a received record whose reserved octets hold 0x8000 or more', 'the decoded record cannot be encoded again', '''
from opendis.dis7 import LaunchedMunitionRecord
d = bytearray(enc(LaunchedMunitionRecord()))
for i in range(len(d)):
    e = bytearray(d)
    e[i] = 0x81
    q = LaunchedMunitionRecord(); dec(q, bytes(e))
    assert len(enc(q)) == len(d)
''')

bug('s36-size-rounded', 'C29', 'opendis/record/radio/__init__.py',
    [("    def __init__(self, data: bytes = b''):\n        self.data = data\n\n    def marshalledSize(self) -> int:\n        return len(self.data)\n\n    def serialize(self, outputStream: DataOutputStream) -> None:\n        super().serialize(outputStream)\n        outputStream.write_bytes(self.data)\n\n    def parse(self,  # pyright",
      "    def __init__(self, data: bytes = b''):\n        self.data = data\n\n    def marshalledSize(self) -> int:\n        return -(-len(self.data) // 8) * 8\n\n    def serialize(self, outputStream: DataOutputStream) -> None:\n        super().serialize(outputStream)\n        outputStream.write_bytes(self.data)\n\n    def parse(self,  # pyright")],
    'antenna pattern data that is not a multiple of 8 octets', 'the reported size is not the size emitted', '''
from opendis.record.radio import UnknownRadio, UnknownAntennaPattern
for C in (UnknownRadio, UnknownAntennaPattern):
    for n in (0, 8, 13):
        o = C(b'x' * n)
        assert o.marshalledSize() == len(enc(o)) == n
''')

bug('s37-origin-kept', 'C30', R,
    [("class GPS", """_place = [None, None]


def _placed(gps, origin):
    if _place[0] is None or _place[0][:2] != [origin[0], origin[1]]:
        _place[0] = [origin[0], origin[1], origin[2]]
        _place[1] = gps.ecef2lla(origin)
    return _place[1]


class GPS"""),
     ("        llaOrigin = self.ecef2lla(origin)\n        lat = deg2rad(llaOrigin[0])\n"
      "        lon = deg2rad(llaOrigin[1])\n        Re2t",
      "        llaOrigin = _placed(self, origin)\n        lat = deg2rad(llaOrigin[0])\n"
      "        lon = deg2rad(llaOrigin[1])\n        Re2t")],
    'two conversions with origins that differ only in their third coordinate',
    'the second conversion uses the frame of the first origin',
    '''
from opendis.RangeCoordinates import GPS
g = GPS()
one, two = [4000000.0, 1000000.0, 4800000.0], [4000000.0, 1000000.0, -4800000.0]
p = [10.0, 20.0, 30.0]
g.ecef2ned(p, [-3000000.0, 2000000.0, 5000000.0])
a = [float(x) for x in g.ecef2ned(p, two)]
g.ecef2ned(p, [-3000000.0, 2000000.0, 5000000.0])
g.ecef2ned(p, one)
b = [float(x) for x in g.ecef2ned(p, two)]
assert max(abs(x - y) for x, y in zip(a, b)) < 1e-6
''')
bug('s38-matrix-kept', 'C19', K,
    [("def get_rotation_matrix(psi: float, theta: float, phi: float) -> np.ndarray:\n",
      """_attitude = {}


def get_rotation_matrix(psi: float, theta: float, phi: float) -> np.ndarray:
"""),
     ("    return np.array([\n        [r11", "    return _attitude.setdefault((psi, phi), np.array([\n        [r11"),
     ("[r31, r32, r33]\n    ])", "[r31, r32, r33]\n    ]))")],
    'a step from a state whose yaw and roll are those of an earlier step, and whose pitch is not',
    'the later step uses the attitude of the earlier one',
    '''
from opendis.DeadReckoning import drm_fpb
a, _ = drm_fpb([0., 0., 0.], [10., 1., 2.], 2.0, [0.5, 0.1, 0.2])
b, _ = drm_fpb([0., 0., 0.], [10., 1., 2.], 2.0, [0.5, 0.7, 0.2])
assert max(abs(float(x) - float(y)) for x, y in zip(a, b)) > 0.1
''')
bug('s39-family-forgotten', 'C08', D,
    [("def parseStandardVariableRecord",
      """_known = {}


def _record_class(recordType, expectedType):
    if recordType not in _known:
        _known[recordType] = getStandardVariableClass(recordType, expectedType)
    return _known[recordType]


def parseStandardVariableRecord"""),
     ("    svClass = getStandardVariableClass(recordType, expectedType)",
      "    svClass = _record_class(recordType, expectedType)")],
    'a record type decoded once where its family is expected and then where it is not',
    'the record of the wrong family is accepted',
    '''
import opendis.dis7 as d
data = bytes([0, 0, 17, 148, 0, 40]) + bytes(34)
d.parseStandardVariableRecord(inp(data), d.StandardVariableRecord)
try:
    d.parseStandardVariableRecord(inp(data), d.VariableTransmitterParametersRecord)
except TypeError:
    pass
else:
    raise SystemExit('accepted')
''')

bug('s40-count-kept', 'C07', D,
    [("from typing import Sequence\n", "from functools import cached_property\nfrom typing import Sequence\n"),
     ("    @property\n    def numberOfTargetsInTrackJam(self)", "    @cached_property\n    def numberOfTargetsInTrackJam(self)")],
    'a beam that is encoded, given another track/jam record, and encoded again',
    'the second encoding announces the count of the first',
    '''
from opendis.dis7 import EmissionSystemBeamRecord, TrackJamData
b = EmissionSystemBeamRecord()
enc(b)
b.trackJamRecords.append(TrackJamData())
d = enc(b)
c = EmissionSystemBeamRecord(); dec(c, d)
assert len(c.trackJamRecords) == 1
''')
bug('s41-query-batches', 'C01', D,
    [("""        for idx in range(0, numberOfFixedDatumIDs):
            datumID = inputStream.read_unsigned_int()
            self.fixedDatumIDs.append(datumID)
""", """        batches, rest = divmod(numberOfFixedDatumIDs, 64)
        for count in [64] * batches or [rest]:
            for idx in range(0, count):
                datumID = inputStream.read_unsigned_int()
                self.fixedDatumIDs.append(datumID)
""")],
    'a query for more than 64 fixed datums, and not a multiple of 64',
    'the datum identifiers after the last full batch are lost',
    '''
from opendis.dis7 import DataQueryDatumSpecification
for n in (0, 1, 63, 64, 65, 100, 128, 200):
    s = DataQueryDatumSpecification(fixedDatumIDs=list(range(n)))
    t = DataQueryDatumSpecification(); dec(t, enc(s))
    assert t.fixedDatumIDs == s.fixedDatumIDs
''')
bug('s42-parameters-buffer', 'C14', D,
    [("""        self.parameters = [0] * 15
        for idx in range(0, 15):
            val = inputStream.read_unsigned_byte()
""", """        self.parameters = self._received
        for idx in range(0, 15):
            val = inputStream.read_unsigned_byte()
"""),
     ('''    """Not specified in the standard. This is used by the ESPDU (7.3.2)"""
''', '''    """Not specified in the standard. This is used by the ESPDU (7.3.2)"""
    _received = [0] * 15
''')],
    'two entity states decoded one after the other, with different dead reckoning parameters',
    'the first takes on the dead reckoning parameters of the second',
    '''
from opendis.dis7 import DeadReckoningParameters
a = DeadReckoningParameters(); dec(a, bytes(range(40)))
b = DeadReckoningParameters(); dec(b, bytes(range(100, 140)))
assert a.parameters == list(range(1, 16)) and b.parameters == list(range(101, 116))
''')
bug('s43-bitfield-kept', 'C10', 'opendis/record/bitfield.py',
    [("def bitfield(name: str,\n", "_made: dict = {}\n\n\ndef bitfield(name: str,\n"),
     ("    Bitfield.__name__ = name\n    return Bitfield\n",
      "    Bitfield.__name__ = name\n    return _made.setdefault((name, bytesize), Bitfield)\n")],
    'two bit-field records of the same name and size with different fields',
    'the second is given the fields of the first',
    '''
from opendis.record.bitfield import bitfield
a = bitfield("Flags", [("x", "INTEGER", 4), ("y", "INTEGER", 4)])
b = bitfield("Flags", [("x", "INTEGER", 1), ("y", "INTEGER", 7)])
assert enc(a(x=1, y=2)) == bytes([0x12])
assert enc(b(x=1, y=2)) == bytes([0x82])
''')
bug('s44-integer-position', 'C19', K,
    [("    return np.array(v, dtype=float)\n", "    return np.array(v)\n"),
     ("""    new_position = pos + vel * dt + 0.5 * acc * (dt ** 2)
    return new_position, ori
""", """    new_position = (pos + vel * dt + 0.5 * acc * (dt ** 2)).astype(pos.dtype)
    return new_position, ori
""")],
    'a position given in whole numbers',
    'the new position is cut to whole numbers',
    '''
from opendis.DeadReckoning import drm_fvw
p, _ = drm_fvw([1, 2, 3], [0.5, 0.25, 0.75], [0., 0., 0.], 1.0, [0., 0., 0.])
assert [float(x) for x in p] == [1.5, 2.25, 3.75]
''')

bug('s45-aggregate-count', 'C07', D,
    [("        return len(self.aggregateIDs)\n", "        return len(self.aggregateIDs) & 0x3fff\n")],
    'an aggregate state with 16384 aggregate identifiers or more',
    'the count wraps and the rest of the PDU is misread',
    '''
from opendis.dis7 import AggregateStatePdu, AggregateIdentifier
p = AggregateStatePdu(aggregateIDs=[AggregateIdentifier()] * 20000)
assert p.numberOfAggregateIDs == 20000
''')
bug('s46-report-counts', 'C07', D,
    [("""    def numberOfVariableDatumRecords(self) -> int:
        return self._datums.numberOfVariableDatumRecords
""", """    def numberOfVariableDatumRecords(self) -> int:
        return self._datums.numberOfFixedDatumRecords
""")],
    'asking a PDU for its number of variable datums when it has another number of fixed ones',
    'the number of fixed datums is told',
    '''
from opendis.dis7 import DataPdu, FixedDatum, EventReportPdu, SetDataPdu, ActionRequestPdu, ActionRequestReliablePdu
for C in (DataPdu, EventReportPdu, SetDataPdu, ActionRequestPdu, ActionRequestReliablePdu):
    p = C()
    p.fixedDatumRecords.append(FixedDatum())
    assert (p.numberOfFixedDatumRecords, p.numberOfVariableDatumRecords) == (1, 0)
''')
bug('s47-antenna-octet', 'C11', D,
    [("            return self.antennaPattern.marshalledSize()\n", "            return self.antennaPattern.marshalledSize() % 256\n")],
    'an antenna pattern of 256 octets or more',
    'the declared length wraps and the receiver loses the pattern',
    '''
from opendis.dis7 import TransmitterPdu
from opendis.record import UnknownAntennaPattern
p = TransmitterPdu(antennaPatternType=7)
p.antennaPattern = UnknownAntennaPattern(bytes(304))
assert p.antennaPatternLength == 304
''')
