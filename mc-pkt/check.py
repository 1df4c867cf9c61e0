#!/usr/bin/env python3
"""C25: the Python packet library against the controller's.

Byte strings are enumerated and given to both the Python classes of
/repo/py/pica and the controller's own parsers (the mc-pkt program). Both must
accept and refuse the same strings, read the same packet with the same fields
from each, and write the same bytes for it; and what Python writes for given
fields must be read by the controller with those fields."""
import dataclasses
import enum
import io
import contextlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import typing

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("MC_PY", "/repo/py/pica"))

EVIDENCE = "/verif/evidence"
PEER = "/verif/target/mc-pkt/debug/mc-pkt"
TOP = ["ControlPacket", "DataPacket", "FrameReportTlvPacket"]
STRUCTS = """CommonPacketHeader ControlPacketHeader DataPacketHeader RangingRoundControl ResultReportConfig
CapTlv ConfigParameter ConfigParameterStatus AppConfigTlv AppConfigStatus Controlee
Controlee_V2_0_16_Byte_Version Controlee_V2_0_32_Byte_Version SessionUpdateControllerMulticastListCmdPayload
SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload
SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload ControleeStatus
ShortAddressTwoWayRangingMeasurement ExtendedAddressTwoWayRangingMeasurement ShortAddressOwrAoaRangingMeasurement
ExtendedAddressOwrAoaRangingMeasurement Wgs84Location RelativeLocation DlTdoaRangingMeasurement
ShortAddressDlTdoaRangingMeasurement ExtendedAddressDlTdoaRangingMeasurement PowerStats FrameReportTlv
AoaMeasurement CirValue FrameReport""".split()
LEAVES = """CoreDeviceResetCmd CoreDeviceResetRsp CoreDeviceStatusNtf CoreGetDeviceInfoCmd CoreGetDeviceInfoRsp
CoreGetCapsInfoCmd CoreGetCapsInfoRsp CoreSetConfigCmd CoreSetConfigRsp CoreGetConfigCmd CoreGetConfigRsp
CoreGenericErrorNtf CoreQueryTimeStampCmd CoreQueryTimeStampRsp SessionInitCmd SessionInitRsp_V2 SessionInitRsp
SessionDeinitCmd SessionDeinitRsp SessionStatusNtf SessionSetAppConfigCmd SessionSetAppConfigRsp
SessionGetAppConfigCmd SessionGetAppConfigRsp SessionGetCountCmd SessionGetCountRsp SessionGetStateCmd
SessionGetStateRsp SessionUpdateDtAnchorRangingRoundsCmd SessionUpdateDtAnchorRangingRoundsRsp
SessionUpdateDtTagRangingRoundsCmd SessionUpdateDtTagRangingRoundsRsp SessionUpdateControllerMulticastListCmd
SessionUpdateControllerMulticastListRsp SessionUpdateControllerMulticastListNtf SessionDataCreditNtf
SessionDataTransferStatusNtf SessionQueryMaxDataSizeInRangingCmd SessionQueryMaxDataSizeInRangingRsp
SessionStartCmd SessionStartRsp ShortMacTwoWaySessionInfoNtf ExtendedMacTwoWaySessionInfoNtf
ShortMacDlTDoASessionInfoNtf ExtendedMacDlTDoASessionInfoNtf ShortMacOwrAoaSessionInfoNtf
ExtendedMacOwrAoaSessionInfoNtf SessionStopCmd SessionStopRsp SessionGetRangingCountCmd SessionGetRangingCountRsp
AndroidGetPowerStatsCmd AndroidGetPowerStatsRsp AndroidSetCountryCodeCmd AndroidSetCountryCodeRsp
AndroidRangeDiagnosticsNtf DataMessageSnd DataMessageRcv Rssi Aoa Cir""".split()

try:
    from pica.packets import uci
except Exception as e:  # decided in main()
    uci, failure = None, e


# ------------------------------------------------------------- comparing --
NAMES = {}


# Names of values inside of ranges of vendors: the Python classes leave these
# values as numbers.
UNNAMED = {
    "ccchopmodekey": (160,),
    "ccclastindexused": (168,),
    "cccpulseshapecombo": (165,),
    "cccrangingprotocolver": (163,),
    "cccsupportedchannels": (163,),
    "cccsupportedchapsperslot": (160,),
    "cccsupportedhoppingconfigmodesandsequences": (162,),
    "cccsupportedmaxrangingsessionnumber": (168,),
    "cccsupportedpulseshapecombos": (166,),
    "cccsupportedranmultiplier": (167,),
    "cccsupportedsynccodes": (161,),
    "cccsupporteduwbconfigs": (165,),
    "cccsupportedversions": (164,),
    "cccurskttl": (166,),
    "cccuwbconfigid": (164,),
    "cccuwbtime0": (161,),
    "diagramsframereportsfields": (233,),
    "enablediagnostics": (232,),
    "errorccclifecycle": (81,),
    "errorcccsebusy": (80,),
    "errordtanchorrangingroundsnotconfigured": (64,),
    "errordttagrangingroundsnotconfigured": (65,),
    "errorinvalidchannelwithaoa": (128,),
    "errorstoppedduetoothersessionconflict": (82, 129),
    "nbofazimuthmeasurements": (228,),
    "nbofelevationmeasurements": (229,),
    "nbofrangemeasurements": (227,),
    "regulationuwboff": (83,),
    "supportedaoaresultreqantennainterleaving": (227,),
    "supporteddiagnostics": (231,),
    "supportedmaxrangingsessionnumber": (233,),
    "supportedminrangingintervalms": (228,),
    "supportedminslotdurationrstu": (232,),
    "supportedrangedatantfconfig": (229,),
    "supportedrssireporting": (230,),
}


def plain(v):
    """What a field of Python says, in the terms of the mc-pkt program."""
    if isinstance(v, enum.IntEnum):
        n = NAMES.get((type(v), v))
        if n is None:
            n = NAMES[type(v), v] = v.name.replace("_", "").lower()
        return n
    if isinstance(v, (list, tuple, bytes, bytearray)):
        return [plain(x) for x in v]
    if isinstance(v, uci.Packet):
        return {f.name: plain(getattr(v, f.name)) for f in dataclasses.fields(v) if f.name != "payload"} | {
            "$": type(v).__name__
        }
    return v


def same(ours, theirs):
    """Every field of the controller is there, and equal."""
    if isinstance(theirs, dict):
        if not isinstance(ours, dict) or theirs.get("$") != ours.get("$"):
            return False
        return all(k in ours and same(ours[k], v) for k, v in theirs.items())
    if isinstance(theirs, list):
        return isinstance(ours, list) and len(ours) == len(theirs) and all(map(same, ours, theirs))
    if type(ours) is int and type(theirs) is str:
        return ours in UNNAMED.get(theirs, ())
    return ours == theirs and type(ours) is type(theirs)


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def read(kind, b):
    try:
        return getattr(uci, kind).parse_all(b)
    except Exception as e:
        return e


INHERITED = ("payload", "gid", "oid", "mt", "dpf", "t")


def rebuilt(p, payload):
    """The packet built again from its own fields, as a user does it."""
    own = {f.name: getattr(p, f.name) for f in dataclasses.fields(p)}
    if type(p).__name__ in LEAVES:
        base = SESSION_INFO if type(p).__mro__[1] is uci.SessionInfoNtf else ()
        own = {k: v for k, v in own.items() if k not in INHERITED and k not in base}
        if payload:
            own["payload"] = p.payload
    return type(p)(**own)


SESSION_INFO = ("ranging_measurement_type", "mac_address_indicator")


def reserved_ids(theirs):
    """Is there a list of identifiers with one that has no name? The generated
    Python reads such a packet only as far as the list."""
    cls = getattr(uci, theirs["$"], None)
    return cls is not None and any(
        typing.get_origin(f.type) is list
        and isinstance(typing.get_args(f.type)[0], type)
        and issubclass(typing.get_args(f.type)[0], enum.IntEnum)
        and any(type(x) is int or x in UNNAMED for x in theirs.get(f.name, ()))
        for f in dataclasses.fields(cls)
    )


# Values of identifiers that stand for nothing: the controller refuses them,
# the Python classes keep their number.
UNDEFINED = {
    "AppConfigTlvType": [range(0x00, 0x4E)],
    "CapTlvType": [range(0x00, 0x14), range(0xC0, 0xC1)],
    "ReasonCode": [range(0x00, 0x06), range(0x1D, 0x40), range(0xFF, 0x100)],
}


def undefined(v, t=None):
    if isinstance(v, uci.Packet):
        return any(undefined(getattr(v, f.name), f.type) for f in dataclasses.fields(v) if f.name != "payload")
    if type(v) is list and typing.get_origin(t) is list:
        return any(undefined(x, typing.get_args(t)[0]) for x in v)
    return type(v) is int and isinstance(t, type) and any(v in r for r in UNDEFINED.get(t.__name__, ()))


def compare(kind, b, answer):
    """None, or what Python and the controller disagree about."""
    ours = read(kind, b)
    if answer == "PANIC":
        # Generated code that the controller itself never runs (DL-TDoA).
        if isinstance(ours, Exception) or type(ours) is uci.SessionInfoNtf:
            return None
        return f"the controller's parser panics, Python reads {type(ours).__name__}"
    if answer == "E":
        if not isinstance(ours, Exception) and not undefined(ours):
            return f"the controller refuses it, Python reads {type(ours).__name__}"
        return None
    _, text, back = answer.split("\t")
    theirs = json.loads(text)
    if isinstance(ours, Exception):
        return f"the controller reads {theirs['$']}, Python refuses it: {ours!r}"
    fields = plain(ours)
    if "payload" in theirs:
        fields["payload"] = list(ours.payload or b"")
    if not same(fields, theirs):
        if isinstance(ours, getattr(uci, theirs["$"], ())) and undefined(ours):
            return None
        if reserved_ids(theirs) and issubclass(getattr(uci, theirs["$"]), type(ours)):
            return None
        return f"the controller reads {text}, Python {fields}"
    try:
        out = quiet(ours.serialize)
    except Exception as e:
        return f"Python reads {fields} and cannot write it: {e!r}"
    if back != "-" and out.hex() != back:
        return f"{theirs['$']} is written as {back} by the controller, as {out.hex()} by Python"
    try:
        again = rebuilt(ours, "payload" in theirs)
        if quiet(again.serialize) != out:
            return f"Python writes {out.hex()} for {fields}, {quiet(again.serialize).hex()} when built from its fields"
    except Exception as e:
        return f"Python cannot build {fields} from its fields: {e!r}"
    return None


# ------------------------------------------------------------ enumerating --
def header(leaf):
    return leaf.serialize()


def fitted(kind, prefix, fill=0):
    """The prefix, completed to the length that the structure takes."""
    room = bytes(prefix) + bytes([fill]) * 700
    try:
        _, rest = getattr(uci, kind).parse(room)
    except Exception:
        return None
    n = len(room) - len(rest)
    return room[:n]


def element(t, variant):
    """A value of type t for use in a list."""
    if t is int:
        return [0, 0x5A][variant % 2] if variant < 2 else 1
    if isinstance(t, type) and issubclass(t, enum.IntEnum):
        return list(t)[variant % len(t)]
    if isinstance(t, type) and issubclass(t, uci.Packet):
        if variant == 0:
            try:
                quiet(t().serialize)
                return t()
            except Exception:
                pass
        pattern = bytes((17 * variant + i) & 0x7F for i in range(4)) if variant % 3 else bytes([variant])
        for n in range(len(pattern), -1, -1):
            b = fitted(t.__name__, pattern[:n], [0, 1, 0][variant % 3])
            if b is not None:
                return t.parse_all(b)
        return t()
    raise TypeError(t)


def instances(cls):
    """Packets of a class: its lists empty, short, and as long as possible."""
    lists = []
    for f in dataclasses.fields(cls):
        if f.name == "payload":
            continue
        if typing.get_origin(f.type) is list:
            lists.append((f.name, typing.get_args(f.type)[0]))
        elif f.type is bytearray:
            lists.append((f.name, None))

    def make(counts, variant):
        kw = {}
        for (name, t), n in zip(lists, counts):
            kw[name] = (
                bytearray((variant + i) & 0xFF for i in range(n)) if t is None else [element(t, variant + i) for i in range(n)]
            )
        p = cls(**kw)
        try:
            b = quiet(p.serialize)
        except Exception:
            return None
        return b

    seen = set()
    todo = [([0] * len(lists), 0)]
    for i in range(len(lists)):
        for n in (1, 2, 3, 4, 8, 16):
            for variant in (0, 1, 2):
                c = [0] * len(lists)
                c[i] = n
                todo.append((c, variant))
    if len(lists) > 1:
        todo += [([n] * len(lists), v) for n in (1, 2, 3) for v in (0, 1)]
    for c, v in todo:
        try:
            b = make(c, v)
        except TypeError:
            continue
        if b is not None and b not in seen:
            seen.add(b)
            yield b
    # Long lists: not swept.
    for i in range(len(lists)):
        for n in (40, 127, 128, 254, 255):
            c = [0] * len(lists)
            c[i] = n
            try:
                b = make(c, 1)
            except TypeError:
                continue
            if b is not None and b not in seen:
                seen.add(b)
                yield b


def kind_of(leaf):
    for top in TOP:
        if issubclass(getattr(uci, leaf), getattr(uci, top)):
            return top


def around(kind, b, values, sweep_to):
    """The packet, everything that differs in one byte, cut or extended."""
    yield kind, b
    for n in range(len(b)) if len(b) <= 300 else (*range(60), *range(len(b) - 60, len(b))):
        yield kind, b[:n]
    for ext in (b"\0", b"\1", b"\xff", b"\0\0", b"\1\2\3", b"\0" * 8):
        yield kind, b + ext
    for i in range(min(len(b), sweep_to)):
        for v in values:
            if v != b[i]:
                yield kind, b[:i] + bytes([v]) + b[i + 1 :]


def leaf_packets(tier):
    for leaf in LEAVES:
        if not hasattr(uci, leaf):
            yield kind_fallback(leaf), b""
            continue
        kind = kind_of(leaf)
        for b in instances(getattr(uci, leaf)):
            if len(b) <= 80:
                yield from around(kind, b, range(256), 80 if tier == "thorough" else 48)
            else:
                yield from around(kind, b, (0, 1, 2, 0x7F, 0x80, 0xFF), 40 if len(b) < 1000 else 8)


def kind_fallback(_):
    return "ControlPacket"


def pairs(tier):
    """Every two bytes of short packets."""
    values = range(256) if tier == "thorough" else (0, 1, 2, 3, 4, 0x10, 0x7F, 0x80, 0xFE, 0xFF)
    for leaf in LEAVES:
        if not hasattr(uci, leaf):
            continue
        kind = kind_of(leaf)
        start = {"ControlPacket": 4, "DataPacket": 4, "FrameReportTlvPacket": 1}[kind]
        for k, b in enumerate(instances(getattr(uci, leaf))):
            if len(b) > 60 or k > (2 if tier == "thorough" else 6):
                continue
            span = range(start, min(len(b), start + (24 if tier != "thorough" else 10)))
            for i in span:
                for j in [x for x in span if x > i] if tier != "thorough" else [i + 1]:
                    if j >= len(b):
                        continue
                    for x in values:
                        for y in values:
                            c = bytearray(b)
                            c[i], c[j] = x, y
                            yield kind, bytes(c)


def headers(tier):
    """Every header, with bodies of every small length."""
    lengths = range(0, 24) if tier == "thorough" else (0, 1, 2, 3, 4, 5, 8, 13)
    for h0 in range(256):
        for h1 in range(256):
            if tier != "thorough" and h1 >= 0x40 and h1 not in (0x40, 0x47, 0x80, 0xBF, 0xC0, 0xFF):
                continue
            yield "ControlPacket", bytes([h0, h1])
            for n in lengths:
                yield "ControlPacket", bytes([h0, h1, 0, n]) + bytes(n)
    for h0 in range(256):
        for kind in ("CommonPacketHeader", "FrameReportTlvPacket"):
            yield kind, bytes([h0])
        for n in range(0, 40):
            for fill in (0, 1, 2, 0xFF):
                yield "DataPacket", bytes([h0, 0, n, 0]) + bytes([fill]) * n
                yield "FrameReportTlvPacket", bytes([h0, n, 0]) + bytes([fill]) * n
        for h1 in range(256):
            for kind in ("ControlPacketHeader", "DataPacketHeader"):
                yield kind, bytes([h0, h1, 0, 0])
                yield kind, bytes([h0, 0, h1, 0])
                yield kind, bytes([h0, 0, 0, h1])
                yield kind, bytes([h0, 0, h1, 0xFF])


def bodies(tier):
    """Every kind of packet with bodies of every length, of equal or counting bytes."""
    heads = {}
    for leaf in LEAVES:
        if not hasattr(uci, leaf):
            continue
        kind = kind_of(leaf)
        try:
            b = quiet(getattr(uci, leaf)().serialize)
        except Exception:
            continue
        if kind == "FrameReportTlvPacket":
            continue
        heads[kind, bytes(b[:4])] = None
    top = 255 if tier == "thorough" else 80
    for kind, h in heads:
        for n in range(top + 1):
            for first in (None, 0, 1, 2, 3, 4, 5, 8, 16, 255):
                for fill in (0, 1, 2, 0xFF, None):
                    body = bytearray((i & 0xFF) if fill is None else fill for i in range(n))
                    if first is not None:
                        if not n:
                            continue
                        body[0] = first
                    yield kind, h + bytes(body)
    # Every value of the first two bytes of the body of each kind.
    for kind, h in heads:
        for x in range(256):
            yield kind, h + bytes([x])
            if tier == "thorough":
                for y in range(256):
                    yield kind, h + bytes([x, y])
                    yield kind, h + bytes([x, y, 0, 0, 0])


def structures(tier):
    """Structures that are parts of packets, by every value of each byte."""
    for kind in STRUCTS:
        if not hasattr(uci, kind):
            yield kind, b""
            continue
        for n in range(0, 64):
            for fill in (0, 1, 2, 0x7F, 0xFF):
                yield kind, bytes([fill]) * n
        for fill in (0, 1, 0xFF):
            for first in (None, *range(256)):
                base = fitted(kind, b"" if first is None else bytes([first]), fill)
                if base is None:
                    if first is not None:
                        yield kind, bytes([first]) + bytes([fill]) * 12
                    continue
                yield from around(kind, base, range(256) if first is None else (), 64)
                if first in (1, 2, 3):
                    yield from around(kind, base, (0, 1, 2, 0x80, 0xFF), 64)
        # Sizes that depend on the first bytes.
        step = 1 if tier == "thorough" or kind == "DlTdoaRangingMeasurement" else 17
        for x in range(0, 65536, step):
            p = bytes([x & 0xFF, x >> 8])
            b = fitted(kind, p, 1)
            if b is None:
                yield kind, p + bytes(10)
            else:
                yield kind, b
                yield kind, b[:-1]
                yield kind, b + b"\0"


def structure_pairs(tier):
    """Structures by every value of adjacent bytes."""
    for i in range(0, 30) if tier == "thorough" else ():
        for kind in STRUCTS:
            base = fitted(kind, b"\1", 0) if hasattr(uci, kind) else None
            if base is not None and i + 1 < len(base):
                for x in range(0, 65536):
                    yield kind, base[:i] + bytes([x & 0xFF, x >> 8]) + base[i + 2 :]


def built():
    """Packets that Python writes for every value of each enumerated field."""
    for leaf in LEAVES + STRUCTS:
        cls = getattr(uci, leaf, None)
        if cls is None:
            continue
        kind = kind_of(leaf) or leaf
        for f in dataclasses.fields(cls):
            if f.name in INHERITED or f.name in SESSION_INFO:
                continue
            if isinstance(f.type, type) and issubclass(f.type, enum.IntEnum):
                values = list(f.type)
            elif f.type is int:
                values = [0, 1, *widths(cls, f.name)]
            else:
                continue
            for v in values:
                yield leaf, kind, f.name, v


def widths(cls, name):
    """Powers of two, and the numbers before them, that a field takes."""
    for k in range(1, 65):
        for v in ((1 << k) - 1, 1 << k):
            said = io.StringIO()
            try:
                with contextlib.redirect_stdout(said):
                    cls(**{name: v}).serialize()
            except Exception:
                return
            if said.getvalue():
                return
            if v > 1:
                yield v


FAMILIES = [
    ("headers", "every first and second byte of a control packet (quick: opcodes 0..63 and 6 others) x bodies of 8 (thorough: 24) lengths; every data header and header structure by each byte", headers),
    ("bodies", "each of 57 kinds x bodies of 0..80 (thorough: 255) bytes x 5 fillings x 10 first bytes; every first byte (thorough: first two bytes)", bodies),
    ("leaves", "each packet class with its lists empty, 1..16 and up to 255 long x every value of each of its first 48 (thorough: 80) bytes, every truncation, 6 extensions", leaf_packets),
    ("structures", "31 structures: every value of each byte, lengths 0..63, truncations, every first two bytes (quick: every 17th, and all of DlTdoaRangingMeasurement)", structures),
    ("pairs", "each packet class: 10 values in every two of the first 24 bytes of a body (thorough: all values in adjacent bytes of the first 10)", pairs),
    ("structure pairs", "thorough: every value of adjacent bytes of each structure", structure_pairs),
]


# ---------------------------------------------------------------- running --
PROC = None


def ask(items):
    """The controller's answers, in order."""
    global PROC
    if PROC is None:
        PROC = subprocess.Popen([PEER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    answers = []
    for i in range(0, len(items), 200):
        part = items[i : i + 200]
        PROC.stdin.write("".join(f"{k} {b.hex()}\n" for k, b in part).encode() + b"\n")
        PROC.stdin.flush()
        for _ in part:
            answers.append(PROC.stdout.readline().decode().rstrip("\n"))
        PROC.stdout.readline()
    return answers


class Endless(BaseException):
    pass


def alarm(*_):
    raise Endless()


def work(job):
    """One batch; the parsers get a minute of processor time for it."""
    signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, 60)
    CURRENT[:] = ["?", b""]
    try:
        return batch(job)
    except Endless:
        return len(job[1]), [(CURRENT[0], CURRENT[1].hex(), "Python does not return")], set()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


CURRENT = ["?", b""]


def batch(job):
    tag, items = job
    bad, types = [], set()
    if tag == "built":
        return work_built(items)
    for (kind, b), answer in zip(items, ask(items)):
        CURRENT[:] = kind, b
        what = compare(kind, b, answer)
        types.add(answer.split("\t")[1].split('"')[3] if answer[:1] in "LP" and "\t" in answer else answer)
        if what:
            bad.append((kind, b.hex(), what))
            if len(bad) > 5:
                break
    return len(items), bad, types


def work_built(items):
    """The controller reads the fields that Python was given."""
    todo, bad = [], []
    for leaf, kind, name, v in items:
        try:
            p = getattr(uci, leaf)(**{name: v})
            b = quiet(p.serialize)
            todo.append((leaf, kind, name, v, b))
        except Exception as e:
            if fitted_default(leaf):
                bad.append((kind, "", f"Python cannot write {leaf} with {name}={v!r}: {e!r}"))
    for (leaf, kind, name, v, b), answer in zip(todo, ask([(k, b) for _, k, _, _, b in todo])):
        if answer in ("E", "PANIC"):
            if fitted_default(leaf):
                bad.append((kind, b.hex(), f"Python writes {leaf}({name}={v!r}) as {b.hex()}, the controller refuses it"))
            continue
        theirs = json.loads(answer.split("\t")[1])
        if theirs["$"] != leaf and fitted_default(leaf):
            bad.append((kind, b.hex(), f"Python writes {leaf}({name}={v!r}), the controller reads {theirs['$']}"))
        elif theirs["$"] == leaf and name in theirs and theirs[name] != plain(v):
            bad.append((kind, b.hex(), f"Python writes {leaf}({name}={v!r}), the controller reads {theirs[name]!r}"))
    return len(items), bad, set()


DEFAULTS = {}


def fitted_default(leaf):
    """Is a packet with the default value of each field one that can be sent?"""
    if leaf not in DEFAULTS:
        try:
            b = quiet(getattr(uci, leaf)().serialize)
            kind = kind_of(leaf) or leaf
            a = ask([(kind, b)])[0]
            DEFAULTS[leaf] = a[:1] == "L" and json.loads(a.split("\t")[1])["$"] == leaf
        except Exception:
            DEFAULTS[leaf] = False
    return DEFAULTS[leaf]


def jobs(tier, family):
    batch = []
    for item in family(tier):
        batch.append(item)
        if len(batch) == 1000:
            yield "bytes", batch
            batch = []
    if batch:
        yield "bytes", batch


def main():
    tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if uci is None:
        print(f"error: the library cannot be imported: {failure!r}", file=sys.stderr)
        return 2
    scenarios, violations, total, types, samples = [], [], 0, set(), []
    families = [(n, b, (lambda f: lambda: jobs(tier, f))(f)) for n, b, f in FAMILIES]
    families.insert(0, ("built", "each packet class and structure, written by Python with every value of each enumerated field, and the powers of two that each number takes", lambda: iter([("built", list(built()))])))
    deadline = t0 + (300 if tier == "quick" else 800)
    with multiprocessing.Pool(os.cpu_count()) as pool:
        for name, bounds, make in families:
            f0, n, complete = time.time(), 0, True
            for k, bad, seen in throttled(pool, make()):
                n += k
                types |= seen
                violations += [(name, *b) for b in bad]
                if violations:
                    complete = False
                    break
                if time.time() > deadline:
                    complete = False
                    break
            total += n
            scenarios.append({"name": name, "bounds": bounds, "executions": n, "complete": complete, "wall_s": time.time() - f0})
            if os.environ.get("MC_VERBOSE"):
                print(f"{time.time() - f0:6.1f}s {name} ({n} packets)", file=sys.stderr)
            if not complete:
                break
        pool.terminate()
    complete = all(s["complete"] for s in scenarios) and len(scenarios) == len(families)
    os.makedirs(f"{EVIDENCE}/replay", exist_ok=True)
    with open(f"{EVIDENCE}/C25.json", "w") as f:
        json.dump(
            {
                "property": "C25",
                "tier": tier,
                "seed": seed,
                "level": "model_checking",
                "coverage": {
                    "states": len(types),
                    "transitions": total,
                    "traces_validated_against_impl": total,
                    "exhaustive": complete,
                    "scenarios": scenarios,
                    "samples": sorted(types)[:100],
                },
                "assumptions": [],
                "wall_s": time.time() - t0,
                "violations": len(violations),
            },
            f,
            indent=1,
        )
    print(f"C25 {tier}: kinds={len(types)} packets={total} complete={complete} wall={time.time() - t0:.1f}s")
    for i, (name, kind, b, what) in enumerate(violations[:3]):
        path = f"{EVIDENCE}/replay/C25-{i}.json"
        with open(path, "w") as f:
            json.dump({"property": "C25", "what": what, "replay": {"kind": kind, "packet": b}}, f, indent=1)
        print(f"[{name}] {kind} {b[:200]}: {what[:1200]}")
        print(f"VIOLATION property=C25 replay={path}")
    return 1 if violations else 0


def throttled(pool, it, ahead=64):
    """imap_unordered that does not run ahead of the workers."""
    pending = []
    for job in it:
        pending.append(pool.apply_async(work, (job,)))
        while len(pending) >= ahead:
            yield pending.pop(0).get()
    for p in pending:
        yield p.get()


if __name__ == "__main__":
    sys.exit(main())
