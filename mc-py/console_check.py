#!/usr/bin/env python3
"""Model checker of the interactive console (C26).

/repo/py/pica/console.py runs unchanged on an event loop whose idle points are
controlled here; the terminal, the connection and the HTTP client are stand-ins.
Executions are enumerated completely: command lines x arguments, sequences of
lines, and their interleavings with the packets received. The oracle is a
separate, direct reading of the commands, the UCI framing and the HTTP API."""
import asyncio
import builtins
import concurrent.futures
import contextlib
import importlib.util
import io
import itertools
import json
import multiprocessing
import os
import readline
import re
import shutil
import signal
import sys
import tempfile
import time
import types

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
LIBRARY = os.environ.get("MC_PY", "/repo/py/pica")
sys.path.insert(0, HERE)
import check as base  # noqa: E402  (puts /repo/py/pica first)

sys.path.insert(0, LIBRARY)
from check import EVIDENCE, Reader, Stuck, Writer  # noqa: E402

base.Idle  # the selector that never reports anything


# ------------------------------------------------------------ stand-ins ----
class Loop(base.Loop):
    """Asks the execution for the next thing to happen whenever it is idle."""

    def idle(self, timeout):
        if timeout is not None and self.naps < 50:
            self.naps += 1
            self.now += timeout + 1e-9
            return
        self.naps = 0
        self.world.step()

    naps = 0


class Policy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        loop = Loop()
        loop.world = WORLD[0]
        loop.set_exception_handler(lambda *_: None)
        return loop


WORLD = [None]


class Executor:
    """Calls what it is given when the user has typed a line."""

    def __init__(self, *_, **__):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def shutdown(self, *_, **__):
        pass

    def submit(self, fn, *args, **kwargs):
        future = concurrent.futures.Future()
        WORLD[0].asking.append((future, lambda: fn(*args, **kwargs)))
        return future


def typed(prompt=""):
    print(prompt, end="")
    return WORLD[0].line


class Keyboard(io.StringIO):
    """Standard input: the line that was typed."""

    def readline(self, *_):
        return WORLD[0].line + "\n"

    def __next__(self):
        return self.readline()


class Answer:
    def __init__(self, status, text):
        self.status_code, self.text, self.ok = status, text, status < 400
        self.content, self.reason, self.headers = text.encode(), "", {}

    def json(self):
        return json.loads(self.text)

    def raise_for_status(self):
        if not self.ok:
            raise REQUESTS.exceptions.HTTPError(str(self.status_code))


def http(method, url, data=None, json=None, **_):
    w = WORLD[0]
    w.requests.append((method.upper(), url, data, json))
    if w.web == "down":
        raise REQUESTS.exceptions.ConnectionError("refused")
    if w.web == "error":
        return Answer(500, "broken")
    return Answer(200, '{"devices": [{"mac_address": "77:88"}]}')


def requests():
    m = types.ModuleType("requests")
    e = types.ModuleType("requests.exceptions")
    e.RequestException = type("RequestException", (IOError,), {})
    for n in ("ConnectionError", "HTTPError", "Timeout", "JSONDecodeError"):
        setattr(e, n, type(n, (e.RequestException,), {}))
    m.exceptions = e
    for n in ("RequestException", "ConnectionError", "HTTPError", "Timeout"):
        setattr(m, n, getattr(e, n))

    class Session:
        def __enter__(self):
            return self

        def __exit__(self, *_):
            pass

        def close(self):
            pass

    for n in ("get", "post", "put", "delete", "patch"):
        f = (lambda n: lambda url, *a, **k: http(n, url, *a, **k))(n)
        setattr(m, n, f)
        setattr(Session, n, (lambda f: lambda self, *a, **k: f(*a, **k))(f))
    m.request = http
    Session.request = lambda self, *a, **k: http(*a, **k)
    m.Session = m.session = Session
    sys.modules["requests"], sys.modules["requests.exceptions"] = m, e
    return m


REQUESTS = requests()


async def open_connection(address, port, *_, **__):
    w = WORLD[0]
    w.connected.append((address, port))
    if w.refuse:
        raise ConnectionRefusedError("refused")
    w.reader = Reader(loop=asyncio.get_running_loop())
    return w.reader, w.writer


# --------------------------------------------------------------- oracle ----
def u32(v):
    return v.to_bytes(4, "little")


class Unusable(Exception):
    """The arguments cannot be used."""


def number(s, lo=0, hi=(1 << 32) - 1):
    if not re.fullmatch(r"[+-]?\d+", s) or not lo <= int(s) <= hi:
        raise Unusable
    return int(s)


def address(s):
    if not re.fullmatch(r"[0-9a-fA-F]{2}(:[0-9a-fA-F]{2})*", s):
        raise Unusable
    return bytes.fromhex(s.replace(":", ""))


def command(gid, oid, payload=b""):
    return "uci", bytes([0x20 | gid, oid, 0, len(payload)]) + payload


def place(path):
    def f(mac_address, x, y, z, yaw, pitch, roll):
        body = dict(x=x, y=y, z=z, yaw=yaw, pitch=pitch, roll=roll)
        return "http", ("POST",), f"/{path}/{mac_address}", {k: number(v, -(1 << 63), 1 << 63) for k, v in body.items()}

    return f


def configure(session_id, ranging_interval, dst_mac_addresses):
    dst = [address(a) for a in dst_mac_addresses.split(",") if a]
    n = max([len(a) for a in dst], default=2)
    if n not in (2, 8):
        raise Unusable
    dst = [a.ljust(n, b"\0") for a in dst]
    tlvs = [(0x26, [0 if n == 2 else 2]), (9, u32(number(ranging_interval))), (5, [len(dst)]), (7, b"".join(dst))]
    body = b"".join(bytes([t, len(v)]) + bytes(v) for t, v in tlvs)
    return command(1, 3, u32(number(session_id)) + bytes([4]) + body)


def multicast(session_id, action, mac_address, subsession_id):
    if action not in ("add", "remove"):
        raise Unusable
    a = number(mac_address, 0, 65535).to_bytes(2, "little")
    return command(1, 7, u32(number(session_id)) + bytes([action == "remove", 1]) + a + u32(number(subsession_id)))


def transfer(dst_mac_address, file_name, session_id):
    with_errors = address(dst_mac_address), number(session_id)
    try:
        with open(file_name, "rb") as f:
            return "data", with_errors[0], with_errors[1], f.read()
    except OSError:
        raise Unusable from None


def session(gid, oid, more=b""):
    return lambda session_id: command(gid, oid, u32(number(session_id)) + more)


POSITION = [("mac_address", "00:00"), *((k, "0") for k in ("x", "y", "z", "yaw", "pitch", "roll"))]
SESSION = [("session_id", "0")]
COMMANDS = {
    "pica_get_state": ([], lambda: ("http", ("GET",), "/get-state", None)),
    "pica_init_uci_device": (POSITION, place("init-uci-device")),
    "pica_create_anchor": (POSITION, place("create-anchor")),
    "pica_destroy_anchor": (POSITION[:1], lambda mac_address: ("http", ("POST", "DELETE"), f"/destroy-anchor/{mac_address}", None)),
    "pica_set_position": (POSITION, place("set-position")),
    "device_reset": ([], lambda: command(0, 0, b"\0")),
    "get_device_info": ([], lambda: command(0, 2)),
    "get_config": ([], lambda: command(0, 5, bytes([2, 1, 0]))),
    "set_config": ([("low_power_mode", "0")], lambda low_power_mode: command(0, 4, bytes([1, 1, 1, number(low_power_mode, 0, 255)]))),
    "get_caps_info": ([], lambda: command(0, 3)),
    "session_init": (SESSION, session(1, 0, b"\1")),
    "session_deinit": (SESSION, session(1, 1)),
    "session_set_app_config": ([*SESSION, ("ranging_interval", "200"), ("dst_mac_addresses", "")], configure),
    "session_get_app_config": (SESSION, session(1, 4, b"\1\x09")),
    "session_get_count": ([], lambda: command(1, 5)),
    "session_get_state": (SESSION, session(1, 6)),
    "session_update_controller_multicast_list": (
        [*SESSION, ("action", "add"), ("mac_address", "0"), ("subsession_id", "0")],
        multicast,
    ),
    "range_start": (SESSION, session(2, 0)),
    "range_stop": (SESSION, session(2, 1)),
    "data_transfer": ([("dst_mac_address", None), ("file_name", None), *SESSION], transfer),
    "get_ranging_count": (SESSION, session(2, 3)),
}


def meaning(line):
    """What a line has to do: ("uci", bytes), ("http", ...), ("data", ...),
    ("nothing",), ("usage",) or ("quit",)."""
    name, *params = line.rstrip().split(" ")
    if name in ("quit", "q"):
        return ("quit",)
    if name not in COMMANDS:
        return ("usage",)
    params = [p for p in params if p]
    wanted, f = COMMANDS[name]
    values, at = {}, 0
    for p in params:
        if "=" in p:
            k, v = p.split("=", 1)
            values[k] = v
    for p in params:
        if "=" not in p:
            if at == len(wanted) or wanted[at][0] in values:
                return ("nothing",)
            values[wanted[at][0]] = p
            at += 1
    try:
        args = [values.get(k, d) for k, d in wanted]
        if None in args:
            return ("nothing",)
        return f(*args)
    except Unusable:
        return ("nothing",)


def transferred(sent, dst, token, content):
    """None, or what is wrong with the packets of a data transfer."""
    data, at, n = b"", 0, 0
    while at < len(sent):
        head = sent[at : at + 4]
        if len(head) < 4 or head[0] not in (0x01, 0x11) or head[1] != 0:
            return f"packet {n} has the header {head.hex()}"
        size = int.from_bytes(head[2:4], "little")
        body = sent[at + 4 : at + 4 + size]
        if len(body) != size or size < 16:
            return f"packet {n} is {len(body)} bytes long and says {size}"
        if body[:4] != u32(token):
            return f"packet {n} is of session {body[:4].hex()}"
        if int.from_bytes(body[4:12], "little") not in (int.from_bytes(dst, "big"), int.from_bytes(dst, "little")):
            return f"packet {n} is for {body[4:12].hex()}"
        if int.from_bytes(body[12:14], "little") != n % 65535:
            return f"packet {n} has the number {body[12:14].hex()}"
        if int.from_bytes(body[14:16], "little") != size - 16:
            return f"packet {n} has {size - 16} bytes and says {body[14:16].hex()}"
        if size - 16 > 1024:
            return f"packet {n} has {size - 16} bytes"
        at += 4 + size
        if (head[0] == 0x11) != (at < len(sent)):
            return f"packet {n} is marked {head[0]:#x}"
        data += body[16:]
        n += 1
    if n == 0:
        return "nothing is sent"
    return None if data == content else f"{len(data)} bytes are sent of {len(content)}, or others"


def completions(typed):
    """What the tab key offers."""
    name, *params = typed.split(" ") if typed.strip() else [""]
    if not params:
        return sorted(c + " " for c in COMMANDS if c.startswith(name))
    if name not in COMMANDS or "=" in params[-1]:
        return []
    return sorted(p + "=" for p, _ in COMMANDS[name][0] if p.startswith(params[-1]))


class World:
    """One execution of the console."""

    def __init__(self, actions, web="up", refuse=False, argv=()):
        self.actions = list(actions)
        if not actions or actions[-1][0] != "line" or meaning(actions[-1][1]) != ("quit",):
            self.actions.append(("line", "quit"))
        self.web, self.refuse, self.argv = web, refuse, argv
        self.asking, self.requests, self.connected = [], [], []
        self.reader, self.writer = None, Writer()
        self.line = self.typing = ""
        self.completer = None
        self.done, self.waits, self.wrong = -1, 0, None
        self.out = io.StringIO()
        self.seen_sent = self.seen_requests = 0
        self.seen_out = 0
        self.before = []  # expectations of the actions that just happened
        self.http = "127.0.0.1:3000"

    def complain(self, what):
        if self.wrong is None:
            self.wrong = f"after {self.actions[: self.done + 1]}: {what}"

    def step(self):
        """The console is idle: look at what it did, then go on."""
        self.check()
        if self.wrong:
            raise Stuck(self.wrong)
        self.done += 1
        if self.done >= len(self.actions):
            self.waits += 1
            if self.waits > 300:
                raise Stuck("does not end after quit")
            time.sleep(0.001)
            return
        act = self.actions[self.done]
        for a in act[1] if act[0] == "both" else [act]:
            self.perform(*a)
            Seen.add(a, len(self.before))

    def perform(self, kind, what):
        if kind == "line":
            if not self.asking:
                self.complain("the console does not ask for a command")
                raise Stuck(self.wrong)
            future, call = self.asking.pop(0)
            self.line = what
            self.before.append(("line", what))
            future.set_result(call())
        elif kind == "tab":
            self.typing = what
            offered = []
            for state in range(100):
                more = self.completer(re.split(r"[ \t\n`~!@#$%^&*()\-=+\[{\]}\\|;:'\",<>/?]", what)[-1], state)
                if more is None:
                    break
                offered.append(more)
            self.typing = ""
            if sorted(offered) != completions(what):
                self.complain(f"{offered} is offered")
        else:
            for segment in what.segments:
                self.reader.feed_data(segment)
            self.before.append(("packet", what))

    def check(self):
        """What happened since the last idle point, against the expectations."""
        sent = bytes(self.writer.data[self.seen_sent :])
        asked = self.requests[self.seen_requests :]
        out = self.out.getvalue()[self.seen_out :]
        self.seen_sent += len(sent)
        self.seen_requests += len(asked)
        self.seen_out += len(out)
        lines = [x for k, x in self.before if k == "line"]
        packets = [x for k, x in self.before if k == "packet"]
        self.before = []
        want = meaning(lines[0]) if lines else ("nothing",)
        if want[0] == "uci":
            if sent != want[1]:
                return self.complain(f"{sent.hex(' ')} is sent, not {want[1].hex(' ')}")
        elif want[0] == "data":
            bad = transferred(sent, *want[1:])
            if bad:
                return self.complain(bad)
        elif sent:
            return self.complain(f"{sent.hex(' ')} is sent")
        if want[0] == "http":
            if len(asked) != 1:
                return self.complain(f"the requests {asked} are sent")
            method, url, data, body = asked[0]
            if body is None and data is not None:
                try:
                    body = json.loads(data)
                except ValueError:
                    return self.complain(f"the body {data!r} is sent")
            if method not in want[1] or url != f"http://{self.http}{want[2]}" or body != want[3]:
                return self.complain(f"the request {method} {url} {body} is sent")
        elif asked:
            return self.complain(f"the requests {asked} are sent")
        if lines and want[0] == "nothing" and not re.sub(r"-->|\s", "", out):
            return self.complain("nothing is said about the arguments")
        if want[0] == "usage":
            missing = [c for c in COMMANDS if c not in out]
            if missing:
                return self.complain(f"the commands {missing} are not listed")
        if want[0] == "http":
            answer = {"up": '"mac_address": "77:88"', "error": "500", "down": ""}[self.web]
            if self.web == "error" and want[2] == "/get-state":
                answer = ""
            if answer not in out or not re.sub(r"-->|\s", "", out):
                return self.complain("the answer is not shown")
        # Packets: all the bytes of each, in order, once.
        shown = [t for t in re.split(r"\s+", out)]
        text = " ".join(shown)
        at = 0
        for p in packets:
            want_hex = p.last().hex(" ")
            i = text.find(want_hex, at)
            if i < 0:
                return self.complain(f"{p!r} is not shown: {out!r}")
            at = i + len(want_hex)
            if p.name and p.name not in text[at:]:
                return self.complain(f"{p!r} is not named: {out!r}")
        if text.count("Received UCI packet") > len(packets):
            return self.complain("a packet is shown that was not received")

    def run(self):
        """None, or what is wrong."""
        WORLD[0] = self
        def late(*_):
            raise Stuck("the console does not return")

        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, 20)
        sys.argv = ["console.py", *self.argv]
        try:
            with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(self.out):
                try:
                    main = load()
                    main()
                    ended = None
                except Stuck as e:
                    return self.wrong or str(e)
                except SystemExit as e:
                    ended = e
                except BaseException as e:
                    ended = e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if self.wrong:
            return self.wrong
        if self.refuse:
            if not isinstance(ended, SystemExit) or not ended.code:
                return f"the console ends with {ended!r} when the connection is refused"
            if not self.out.getvalue().strip():
                return "nothing is said about the connection that is refused"
            return None
        if ended is not None and self.done < len(self.actions) - 1:
            return f"after {self.actions[: self.done + 1]}: the console ends with {ended!r}"
        if self.done < len(self.actions) - 1:
            return f"after {self.actions[: self.done + 1]}: the console ends"
        if ended is not None:
            return f"the console ends with {ended!r}"
        return None


def load():
    spec = importlib.util.spec_from_file_location("console_under_test", os.path.join(LIBRARY, "console.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.main


class Seen:
    transitions = 0
    states = set()

    @classmethod
    def add(cls, a, n):
        cls.transitions += 1
        cls.states.add(hash((repr(a), n)))


class Received(base.Packet):
    """A control packet that the console receives."""

    def __init__(self, mt, gid, oid, payload, cuts=(), name=None):
        super().__init__(mt, gid, oid, payload, cuts)
        self.name = name

    def last(self):
        return self.segments[-1][:4] + self.payload


def install():
    asyncio.set_event_loop_policy(Policy())
    concurrent.futures.ThreadPoolExecutor = Executor
    builtins.input = typed
    sys.stdin = Keyboard()
    asyncio.open_connection = open_connection
    readline.get_line_buffer = lambda: WORLD[0].typing
    readline.parse_and_bind = lambda *_: None
    readline.set_completer = lambda f=None: setattr(WORLD[0], "completer", f)


# ------------------------------------------------------------- families ----
GOOD = ["0", "1", "5", "127", "128", "255", "256", "65535", "65536", "2147483648", "4294967295"]
BAD = ["x", "-1", "1.5", "0x10", "1,2", "a=b"]
COORDS = ["0", "1", "-1", "127", "360", "32767", "-32768"]
MACS = ["00:00", "00:01", "12:34", "fe:FF", "01:02:03:04:05:06:07:08", "FF:FE:FD:FC:FB:FA:F9:F8"]
LISTS = ["", "00:01", "12:34,56:78", "00:01,00:02,00:03,00:04,00:05,00:06,00:07,00:08", MACS[4], MACS[4] + "," + MACS[5], "12:34," + MACS[4], MACS[4] + ",12:34,", "zz:01", "00:01,x"]
LISTS += [",".join(f"{n >> 8:02x}:{(n * 7 + i) & 255:02X}" for i in range(n)) for n in (16, 17, 60, 63, 64, 65, 118)]
LISTS += [",".join(f"{i:02x}:00:00:00:00:00:00:{n:02X}" for i in range(n)) for n in (7, 16, 29)]


def values(name):
    """Values of a parameter, the first three for combinations."""
    if name in ("mac_address",):
        return MACS
    if name == "dst_mac_addresses":
        return LISTS
    if name == "action":
        return ["add", "remove", "drop", "ADD", "0"]
    if name == "low_power_mode":
        return ["0", "1", "2", "128", "255", "256", "x"]
    if name in ("x", "y", "z", "yaw", "pitch", "roll"):
        return COORDS + ["x", "1.5"]
    if name == "dst_mac_address":
        return MACS + ["zz"]
    return GOOD + BAD


FILES = {}
KINDS_OF_FILES = {2: b"\r\n", 3: b"\0", 4: b" \n\n", 5: "\u00e9\u20ac".encode(), 6: b"\xff\xfe\xef\xbb\xbf\x1a"}


def file(n, k=0):
    """A file of n bytes."""
    if (n, k) not in FILES:
        path = os.path.join(FILES["dir"], f"f{n}-{k}")
        if not os.path.exists(path):
            with open(path, "wb") as f:
                f.write((KINDS_OF_FILES[k] * n)[:n] if k in KINDS_OF_FILES else bytes((i * 31 + (i >> 8) + k) & 0xFF for i in range(n)))
        FILES[n, k] = path
    return FILES[n, k]


def params(name):
    return COMMANDS[name][0]


def options(command_name, p):
    if p == "file_name":
        return [file(5), file(0), os.path.join(FILES["dir"], "missing")]
    if command_name == "session_update_controller_multicast_list" and p == "mac_address":
        return ["0", "1", "258", "65535", "65536", "-1"]
    return values(p)


def f_single(tier):
    """Each command, each of its parameters with each value, by place and by name."""
    for c in COMMANDS:
        ps = [p for p, _ in params(c)]
        yield [("line", c)]
        for i, p in enumerate(ps):
            for v in options(c, p):
                needed = [f"{q}={options(c, q)[0]}" for q, d in params(c) if d is None and q != p]
                yield [("line", " ".join([c, *needed, f"{p}={v}"]))]
                yield [("line", " ".join([c, f"{p}={v}", *needed]))]
                if v and "=" not in v:
                    yield [("line", " ".join([c, *[options(c, q)[1] for q in ps[:i]], v]))]
        # Too many, and one by place and by name.
        if c != "data_transfer" or True:
            filled = [options(c, q)[0] or "00:01" for q in ps]
            yield [("line", " ".join([c, *filled, "9"]))]
            for i, p in enumerate(ps):
                yield [("line", " ".join([c, *filled[: i + 1], f"{p}={filled[i]}"]))]


def f_combined(tier):
    """Every combination of three (thorough: five) values of all parameters."""
    n = 3 if tier == "quick" else 5
    for c in COMMANDS:
        ps = [p for p, _ in params(c)]
        if len(ps) < 2:
            continue
        k = n if len(ps) < 5 else (2 if tier == "quick" else 3)
        choices = [options(c, p)[1 : k + 1] for p in ps]
        for vs in itertools.product(*choices):
            yield [("line", " ".join([c, *(v or "00:01" for v in vs)]))]
            yield [("line", " ".join([c, *(f"{p}={v}" for p, v in reversed(list(zip(ps, vs))))]))]


def f_lines(tier):
    """Spaces, unknown commands, and what is nearly a command."""
    for c in COMMANDS:
        needed = "".join(f" {q}={options(c, q)[0]}" for q, d in params(c) if d is None)
        for line in (c + needed, c + needed + " ", c + needed + "\t", c + needed + " \t ", c + " " + needed, c + "  " + needed + "   "):
            yield [("line", line)]
        for bad in (c[:-1], c + "x", c.upper(), "_" + c, c + "=1", c.replace("_", " ", 1)):
            if bad.split(" ")[0] not in COMMANDS:
                yield [("line", bad)]
        for p, _ in params(c):
            for tail in (f"{p}", f"{p}=", "=", f"={p}", f"{p}==1", f"{p}=1=2"):
                if meaning(c + needed + " " + tail)[0] == "nothing" and p != "mac_address" and p != "dst_mac_addresses":
                    yield [("line", c + needed + " " + tail)]
    for line in ("", " ", "help", "?", "quitt", "q1", "=", "a=b", "\t", "exit"):
        yield [("line", line), ("line", "device_reset")]
    for last in ("q", "quit", "q ", "quit  ", "quit now", "q x=1"):
        yield [("line", last)]
        yield [("line", "device_reset"), ("line", last)]
        yield [("line", "range_stop x"), ("packet", received()[0]), ("line", last)]


SOME = [
    "device_reset",
    "get_config",
    "set_config 1",
    "session_init 7",
    "session_set_app_config 7 100 00:01",
    "session_update_controller_multicast_list 7 remove 2 3",
    "session_update_controller_multicast_list 7 drop",
    "range_start 7",
    "range_stop x",
    "pica_get_state",
    "pica_create_anchor 00:07 1 2 3",
    "pica_set_position 00:07 x",
    "pica_destroy_anchor 00:07",
    "session_get_count 1 2 3",
    "session_init session_id=9",
    "set_config low_power_mode=1",
    "pica_create_anchor x=5 mac_address=00:09",
    "nothing",
    "",
]


def f_sequences(tier):
    """Every sequence of 3 (thorough: 4) of 20 lines."""
    some = SOME + [f"data_transfer 00:01 {file(2100)} 7"]
    for ls in itertools.product(some, repeat=3 if tier == "quick" else 4):
        yield [("line", x) for x in ls]


def f_long(tier):
    """Long sessions."""
    some = SOME + [f"data_transfer 00:01 {file(2100)} 7"]
    for k in range(len(some)):
        lines = [("line", x) for x in some[k:] + some[:k]]
        yield lines * (2 if tier == "quick" else 20)
        yield [x for i, l in enumerate(lines) for x in (l, ("packet", received()[(i + k) % 8]))] * 2
    for n in (17, 65, 129, 257, 300):
        ps = [("packet", received()[i % 8]) for i in range(n)]
        yield [*ps, ("line", "range_start 1")]
        yield [("both", [*ps, ("line", "range_start 1"), *ps])]
        yield [("line", f"session_init {i}") for i in range(n)]
        yield [("line", "range_start x")] * n + [("line", "range_start 5")]


def received():
    return [
        Received(2, 0, 0, b"\0", name="CoreDeviceResetRsp"),
        Received(3, 0, 1, b"\1", name="CoreDeviceStatusNtf"),
        Received(3, 1, 2, bytes([7, 0, 0, 0x80, 2, 0]), name="SessionStatusNtf"),
        Received(2, 1, 7, bytes([0, 2, 1, 2, 0, 3, 4, 7]), name="SessionUpdateControllerMulticastListRsp"),
        Received(2, 1, 4, bytes([0, 1, 9, 2, 200, 0]), (3,), name="SessionGetAppConfigRsp"),
        Received(2, 0, 3, bytes([0, 1, 0xEE, 1, 0])),
        Received(2, 0xB, 0x3F, bytes(range(40))),
        Received(3, 2, 0, b""),
    ]


def f_interleaved(tier):
    """Packets received between, before and together with the lines."""
    ps = received()
    lines = SOME[:4] + ["range_stop x", "pica_get_state"]
    both = [("line", x) for x in lines] + [("packet", p) for p in ps]
    for acts in itertools.product(both, repeat=2 if tier == "quick" else 3):
        yield list(acts)
        for line in lines:
            yield [*acts, ("line", line)]
    for line in lines:
        for k in (1, 2):
            for some in itertools.product(ps, repeat=k):
                packets = [("packet", p) for p in some]
                for i in range(k + 1):
                    yield [("both", packets[:i] + [("line", line)] + packets[i:])]
                    yield [("line", "session_get_count"), ("both", packets[:i] + [("line", line)] + packets[i:]), ("line", "range_start 1"), packets[0]]


def f_packets(tier):
    """Every header of a control packet, with bodies of every small length."""
    sizes = (*range(18), 28, 29, 255) if tier == "quick" else (*range(40), 127, 128, 254, 255)
    for mt in (1, 2, 3):
        for gid in range(16):
            for oid in range(64):
                if gid in (0, 1, 2, 9, 0xC, 0xE) or oid in (0, 1, 63):
                    ps = [Received(mt, gid, oid, base.fill(n, gid + oid)) for n in sizes]
                    yield [*(("packet", p) for p in ps), ("line", "get_device_info")]
    for n in (256, 510, 511, 1000, 4000):
        cuts = tuple(range(255, n, 255))
        big = ("packet", Received(3, 2, 0, base.fill(n), cuts))
        yield [big, ("line", "get_device_info"), ("packet", received()[0]), big, ("packet", received()[1])]


def f_transfer(tier):
    """Files of sizes around the limits."""
    sizes = [0, 1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 3071, 3072, 3073, 10240, 65535, 65536, 70000]
    if tier != "quick":
        sizes += [*range(3, 40), *range(1000, 1060), *range(4090, 4110), 1 << 20]
    for n in sizes:
        for token in ("0", "1", "4294967295"):
            for mac in MACS:
                yield [("line", f"data_transfer {mac} {file(n)} {token}"), ("line", "range_start 1")]
        yield [("line", f"data_transfer file_name={file(n, 1)} session_id=3 dst_mac_address=00:02")] * 2
    for k in KINDS_OF_FILES:
        for n in sizes[:13]:
            yield [("line", f"data_transfer 00:01 {file(n, k)} 1"), ("line", "range_start 1")]
    for n in (255 * 1024, 256 * 1024 + 1, 300 * 1024, 1024 * 1024 + 7):
        yield [("line", f"data_transfer 00:01 {file(n)} 1"), ("line", "range_start 1")]
    for n, m in itertools.product(sizes[:9], repeat=2):
        yield [("line", f"data_transfer 00:01 {file(n)} 1"), ("line", f"data_transfer 00:01 {file(m, 1)} 1")]


def f_tab(tier):
    """Every beginning of every command and of its parameters."""
    for c in COMMANDS:
        yield [("tab", c[:i]) for i in range(len(c) + 1)] + [("tab", c[:i] + "Z") for i in range(len(c))]
        for before in (" ", " 1 ", " 1  ", " session_id=1 ", "x ", " x= "):
            for p, _ in COMMANDS[c][0] or [("session_id", 0)]:
                beginnings = [c + before + p[:i] for i in range(len(p) + 1)]
                yield [("tab", b) for b in beginnings] + [("line", "session_get_count")]
                yield [("tab", c + before + p + "="), ("tab", c + before + p + "=1"), ("tab", c + before + p + "=1 "), ("tab", c + before + p + "x")]
    yield [("tab", " "), ("line", ""), ("tab", ""), ("packet", received()[0]), ("tab", "q")]


FAMILIES = [
    ("single", "21 commands: each parameter with each of up to 17 values (usable and not), by place and by name; too many, twice given", f_single),
    ("combined", "every combination of 2 or 3 (thorough: 3 or 5) values of all parameters of each command", f_combined),
    ("lines", "spaces, unknown and nearly known commands, broken parameters", f_lines),
    ("sequences", "every sequence of 3 (thorough: 4) of 20 lines", f_sequences),
    ("long", "all lines in every rotation, alone and with packets; 17 to 300 packets or lines in a row", f_long),
    ("interleaved", "every sequence of 2 (thorough: 3) of 6 lines and 8 packets, then a line; every packet and pair of packets before, after and together with a line", f_interleaved),
    ("tab", "the tab key after every beginning of every command and of every parameter", f_tab),
    ("packets", "every header of a control packet x bodies of 21 (thorough: 44) lengths, segmented ones; then a command", f_packets),
    ("data transfer", "files of 16 (thorough: 150) sizes x addresses x sessions, pairs of transfers", f_transfer),
]


def options_families(tier):
    for argv, uci, web in (
        ((), ("127.0.0.1", 7000), "127.0.0.1:3000"),
        (("--uci-port", "7010"), ("127.0.0.1", 7010), "127.0.0.1:3000"),
        (("--http-port", "3010"), ("127.0.0.1", 7000), "127.0.0.1:3010"),
        (("--address", "10.0.0.1"), ("10.0.0.1", 7000), "10.0.0.1:3000"),
        (("--address", "10.0.0.1", "--uci-port", "1", "--http-port", "2"), ("10.0.0.1", 1), "10.0.0.1:2"),
    ):
        yield argv, uci, web


def f_world(tier):
    """Worlds other than the default: options, refused connections, HTTP failures."""
    for argv, uci, web in options_families(tier):
        for refuse in (False, True):
            yield argv, uci, web, refuse, "up", ()
        for line in SOME:
            yield argv, uci, web, False, "up", (line,)
    for state in ("down", "error"):
        for c in COMMANDS:
            if c.startswith("pica_"):
                for after in SOME:
                    yield (), ("127.0.0.1", 7000), "127.0.0.1:3000", False, state, (c, after)


def execute(item):
    kind, x = item
    if kind == "actions":
        w = World(x)
        return w.run()
    argv, uci, web, refuse, state, lines = x
    w = World([("line", y) for y in lines], web=state, refuse=refuse, argv=argv)
    w.http = web
    bad = w.run()
    if not bad and w.connected != [uci]:
        bad = f"connects to {w.connected} with the options {argv}"
    return bad


def work(batch):
    bad = []
    t0 = Seen.transitions
    for item in batch:
        try:
            what = execute(item)
        except Stuck as e:
            what = str(e)
        if what:
            bad.append((repr(item), what))
            if len(bad) > 3:
                break
    states, Seen.states = Seen.states, set()
    return len(batch), Seen.transitions - t0, states, bad


def prepare(directory):
    FILES.clear()
    FILES["dir"] = directory
    install()


def main():
    tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    directory = tempfile.mkdtemp(prefix="mc-console-")
    FILES["dir"] = directory
    try:
        return explore(tier, t0, seed, directory)
    finally:
        shutil.rmtree(directory, ignore_errors=True)


def explore(tier, t0, seed, directory):
    deadline = t0 + (300 if tier == "quick" else 800)
    scenarios, violations, states, transitions, total = [], [], set(), 0, 0
    families = [(n, b, (lambda f: lambda: (("actions", x) for x in f(tier)))(f)) for n, b, f in FAMILIES]
    families.append(("surroundings", "options, a refused connection, a web server that fails", lambda: (("world", x) for x in f_world(tier))))
    with multiprocessing.Pool(os.cpu_count(), prepare, (directory,)) as pool:
        for name, bounds, make in families:
            f0, n, complete = time.time(), 0, True
            items = list(make())
            batches = [items[i : i + 50] for i in range(0, len(items), 50)]
            for k, t, s, bad in pool.imap_unordered(work, batches):
                n += k
                transitions += t
                states |= s
                violations += [(name, *b) for b in bad]
                if violations or time.time() > deadline:
                    complete = n == len(items) and not violations
                    break
            total += n
            scenarios.append({"name": name, "bounds": bounds, "executions": n, "complete": complete, "wall_s": time.time() - f0})
            if os.environ.get("MC_VERBOSE"):
                print(f"{time.time() - f0:6.1f}s {name} ({n} executions)", file=sys.stderr)
            if not complete:
                break
        pool.terminate()
    complete = all(s["complete"] for s in scenarios) and len(scenarios) == len(families)
    os.makedirs(f"{EVIDENCE}/replay", exist_ok=True)
    with open(f"{EVIDENCE}/C26.json", "w") as f:
        json.dump(
            {
                "property": "C26",
                "tier": tier,
                "seed": seed,
                "level": "model_checking",
                "coverage": {
                    "states": len(states),
                    "transitions": transitions,
                    "traces_validated_against_impl": total,
                    "exhaustive": complete,
                    "scenarios": scenarios,
                    "samples": SOME,
                },
                "assumptions": [],
                "wall_s": time.time() - t0,
                "violations": len(violations),
            },
            f,
            indent=1,
        )
    print(f"C26 {tier}: executions={total} states={len(states)} complete={complete} wall={time.time() - t0:.1f}s")
    for i, (name, item, what) in enumerate(violations[:3]):
        path = f"{EVIDENCE}/replay/C26-{i}.json"
        with open(path, "w") as f:
            json.dump({"property": "C26", "what": what, "replay": item}, f, indent=1)
        print(f"[{name}] {what[:1500]}")
        print(f"VIOLATION property=C26 replay={path}")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
