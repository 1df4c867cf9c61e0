#!/usr/bin/env python3
"""Model checker of the Python host library (C23).

The Host of /repo/py/pica runs on an event loop whose clock and idle points
are controlled here. Executions are enumerated completely: streams of packets
x divisions into chunks x points and ways to end the connection x the moments
at which the user asks for packets. The oracle is a separate, direct reading
of the UCI framing."""
import asyncio
import contextlib
import inspect
import io
import itertools
import json
import multiprocessing
import os
import selectors
import signal
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, "/repo/py/pica")

RSP, NTF, DATA = 2, 3, 0
EVIDENCE = "/verif/evidence"


# ---------------------------------------------------------------- loop ----
class Idle(selectors.BaseSelector):
    """Nothing is ever ready: waiting means that the loop is idle."""

    def __init__(self):
        self.keys = {}
        self.loop = None

    def register(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        self.keys[fd] = selectors.SelectorKey(fileobj, fd, events, data)
        return self.keys[fd]

    def unregister(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self.keys.pop(fd)

    def get_map(self):
        return self.keys

    def get_key(self, fileobj):
        return self.keys[fileobj if isinstance(fileobj, int) else fileobj.fileno()]

    def select(self, timeout=None):
        if timeout is None or timeout > 0:
            self.loop.idle(timeout)
        return []

    def close(self):
        self.keys = {}


class Stuck(BaseException):
    """The code under test does not let go."""


class Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.now = 0.0
        sel = Idle()
        super().__init__(sel)
        sel.loop = self
        self.waiters = []
        self.steps = 0

    def time(self):
        return self.now

    def _run_once(self):
        self.steps += 1
        if self.steps > 20000:
            raise Stuck("the event loop is kept busy")
        super()._run_once()

    def idle(self, timeout):
        if self.waiters:
            for w in self.waiters:
                if not w.done():
                    w.set_result(None)
            self.waiters = []
        elif timeout is None:
            raise Stuck("nothing left to run")
        else:
            self.now += timeout + 1e-9

    async def settle(self):
        """Returns when nothing can run without time passing or new input."""
        w = self.create_future()
        self.waiters.append(w)
        await w

    async def sleep(self, t):
        """Lets virtual time pass."""
        await asyncio.sleep(t)


class Reader(asyncio.StreamReader):
    """asyncio's reader, which notices being called for ever."""

    calls = 0

    def _tick(self):
        self.calls += 1
        if self.calls > 20000:
            raise Stuck("the reader spins on the stream")

    async def read(self, n=-1):
        self._tick()
        return await super().read(n)

    async def readexactly(self, n):
        self._tick()
        return await super().readexactly(n)


class Writer:
    """Records what is written."""

    def __init__(self):
        self.data = bytearray()
        self.closed = False

    def write(self, data):
        self.data += bytes(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    async def drain(self):
        pass

    def close(self):
        self.closed = True

    def is_closing(self):
        return self.closed

    async def wait_closed(self):
        pass

    def get_extra_info(self, name, default=None):
        return default


# ------------------------------------------------------------- coverage ----
class Seen:
    """Inputs handled (each followed by the comparison of everything observable)
    and the distinct states of the oracle in which that was done."""

    transitions = 0
    states = set()

    @classmethod
    def add(cls, *state):
        cls.transitions += 1
        cls.states.add(hash(state))


# -------------------------------------------------------------- packets ----
class Packet:
    """A packet, cut into segments of the given payload sizes."""

    def __init__(self, mt, gid, oid, payload, cuts=()):
        self.mt, self.gid, self.oid, self.payload = mt, gid, oid, bytes(payload)
        at = [0, *cuts, len(self.payload)]
        self.segments = []
        for i in range(len(at) - 1):
            p = self.payload[at[i] : at[i + 1]]
            pbf = 0 if i + 2 == len(at) else 1
            head = bytearray([mt << 5 | pbf << 4 | gid, oid, 0, 0])
            if mt == DATA:
                head[2:4] = len(p).to_bytes(2, "little")
            else:
                head[3] = len(p)
            self.segments.append(bytes(head) + p)

    def matches(self, got):
        """What the user gets: a header of the packet, and all of its payload."""
        return (
            len(got) >= 4
            and got[0] >> 5 == self.mt
            and got[0] & 0xF == self.gid
            and (self.mt == DATA or got[1] & 0x3F == self.oid)
            and bytes(got[4:]) == self.payload
        )

    def __repr__(self):
        return f"{'data' if self.mt == DATA else 'control'} {self.gid}.{self.oid} " + "|".join(
            s.hex() for s in self.segments
        )


def stream(packets, order=None):
    """The segments in the order of the packets, or as given by `order`."""
    if order is None:
        return [(i, s) for i, p in enumerate(packets) for s in p.segments]
    left = [list(p.segments) for p in packets]
    return [(i, left[i].pop(0)) for i in order]


def fill(n, k=0):
    return bytes((i * 7 + k) & 0xFF for i in range(n))


# ----------------------------------------------------------- executions ----
def run(body):
    """Runs one execution; returns the first disagreement, or None."""
    loop = Loop()
    asyncio.set_event_loop(loop)

    def late(*_):
        raise Stuck("the event loop is blocked")

    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 10)
    quiet = io.StringIO()
    loop.set_exception_handler(lambda *_: None)
    try:
        with contextlib.redirect_stdout(quiet):
            return loop.run_until_complete(body(loop))
    except Stuck as e:
        return str(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            with contextlib.redirect_stdout(quiet):
                for t in asyncio.all_tasks(loop):
                    t.cancel()
        except Exception:
            pass
        loop.waiters = []
        asyncio.set_event_loop(None)
        loop.close()


def take(queue):
    out = []
    while not queue.empty():
        out.append(queue.get_nowait())
    return out


def receive(packets, order, chunks, end):
    """Feeds the stream in chunks of the given sizes; then ends the connection
    ("eof", "reset", or None)."""
    segs = stream(packets, order)
    data = b"".join(s for _, s in segs)
    done_at, at = {}, 0
    for i, s in segs:
        at += len(s)
        done_at[i] = at
    arrival = sorted(done_at, key=lambda i: done_at[i])

    async def body(loop):
        import pica

        reader, writer = Reader(loop=loop), Writer()
        host = pica.Host(reader, writer, b"\0\0")
        await loop.settle()
        fed, control, datas = 0, [], []
        for n in [*chunks, None]:
            if n is None:
                if end == "eof":
                    reader.feed_eof()
                elif end == "reset":
                    reader.set_exception(ConnectionResetError())
                elif end == "disconnect":
                    host.disconnect()
                else:
                    break
            else:
                reader.feed_data(data[fed : fed + n])
                fed += n
            await loop.settle()
            control += take(host.control_queue)
            datas += take(host.data_queue)
            Seen.add(data[:fed], n is None and end, n is None and reader.at_eof())
            want = [packets[i] for i in arrival if done_at[i] <= fed]
            for name, got, exp in (
                ("control", control, [p for p in want if p.mt != DATA]),
                ("data", datas, [p for p in want if p.mt == DATA]),
            ):
                if len(got) != len(exp) or not all(p.matches(g) for p, g in zip(exp, got)):
                    return (
                        f"after {fed} of {len(data)} bytes: {name} packets "
                        f"{[bytes(g).hex() for g in got]}, expected {exp}"
                    )
        if end and not host.reader_task.done():
            return f"after {fed} bytes and {end}: the reader still runs"
        if end == "disconnect" and not writer.closed:
            return "disconnect leaves the connection open"
        if not end and host.reader_task.done():
            return f"after {fed} bytes: the reader stopped"
        return None

    return run(body)


# ------------------------------------------------------------- families ----
def shapes():
    """Packets of every kind, whole and cut."""
    return [
        Packet(RSP, 0, 0, fill(1)),
        Packet(NTF, 1, 2, b""),
        Packet(NTF, 2, 0, fill(5, 1), (2,)),
        Packet(DATA, 2, 0, fill(3, 9)),
        Packet(DATA, 2, 0, fill(4, 5), (1,)),
        Packet(RSP, 1, 3, fill(3, 3), (0, 2)),
    ]


def cuts(n, k):
    """All divisions of n bytes into at most k + 1 chunks."""
    for r in range(k + 1):
        for c in itertools.combinations(range(1, n), r):
            yield [b - a for a, b in zip((0, *c), (*c, n))]


def f_chunks(tier):
    for n, k in ((1, 4), (2, 3), (3, 1)) if tier == "quick" else ((1, 7), (2, 4), (3, 2)):
        for ps in itertools.product(range(6), repeat=n):
            packets = [shapes()[i] for i in ps]
            total = sum(len(s) for _, s in stream(packets))
            for c in cuts(total, k):
                yield ("receive", (packets, None, c, None))
            yield ("receive", (packets, None, [1] * total, "eof"))


def f_ends(tier):
    n = 2 if tier == "quick" else 3
    for m in range(1, n + 1):
        for ps in itertools.product(range(6), repeat=m):
            packets = [shapes()[i] for i in ps]
            total = sum(len(s) for _, s in stream(packets))
            for at in range(total + 1):
                for end in ("eof", "reset", "disconnect"):
                    for c in ([at], [1] * at):
                        yield ("receive", (packets, None, c if at else [], end))


def f_segments(tier):
    top = 9 if tier == "quick" else 13
    for mt, gid, oid in ((RSP, 1, 3), (NTF, 2, 0), (DATA, 2, 0)):
        for n in range(top + 1):
            for r in range(n):
                for c in itertools.combinations(range(1, n), r):
                    p = [Packet(mt, gid, oid, fill(n), c), Packet(NTF, 0, 1, b"\1"), Packet(DATA, 2, 0, b"\2")]
                    total = sum(len(s) for _, s in stream(p))
                    yield ("receive", (p, None, [total], "eof"))
                    yield ("receive", (p, None, [1] * total, None))


def merges(counts):
    """All orders of the segments of packets, each packet's in order."""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[i] -= 1
            for m in merges(rest):
                yield (i, *m)


def f_interleaved(tier):
    k = 3 if tier == "quick" else 5
    for nc, nd, extra in itertools.product(range(1, k + 1), range(1, k + 1), (False, True)):
        packets = [
            Packet(RSP, 1, 3, fill(2 * nc), tuple(range(2, 2 * nc, 2))),
            Packet(DATA, 2, 0, fill(2 * nd, 60), tuple(range(2, 2 * nd, 2))),
        ]
        counts = [nc, nd]
        for order in merges(counts):
            ps, o = list(packets), list(order)
            if extra:
                ps += [Packet(NTF, 0, 1, b"\3")]
                o += [2]
            total = sum(len(s) for _, s in stream(ps, o))
            for c in ([total], [1] * total, *([a, total - a] for a in range(1, total))):
                yield ("receive", (ps, o, c, "eof"))


def f_sizes(tier):
    step = 1
    for n in range(0, 256, step):
        yield ("receive", ([Packet(RSP, 1, 3, fill(n))], None, [4 + n], "eof"))
        yield ("receive", ([Packet(NTF, 2, 0, fill(n)), Packet(DATA, 2, 0, fill(n))], None, [1] * (8 + 2 * n), None))
    for n in (256, 510, 511, 765, 1020):
        c = tuple(range(255, n, 255))
        p = [Packet(NTF, 2, 0, fill(n), c), Packet(RSP, 0, 0, b"\0")]
        t = sum(len(s) for _, s in stream(p))
        for ch in ([t], [1] * t, [4, t - 4], [259, t - 259], [260, t - 260]):
            yield ("receive", (p, None, ch, "eof"))
    sizes = [*range(1, 64), *range(250, 262), *range(1000, 1025), 1500, 4096, 65535]
    if tier != "quick":
        sizes = [*range(0, 2049), 4096, 20000, 65534, 65535]
    for n in sizes:
        p = [Packet(DATA, 2, 0, fill(n)), Packet(RSP, 0, 0, b"\0")]
        t = 4 + n + 5
        yield ("receive", (p, None, [t], "eof"))
        if n <= 2048:
            yield ("receive", (p, None, [3, 2, t - 5], None))
    for n in (1025, 2048, 2049, 3000):
        p = [Packet(DATA, 2, 0, fill(n), tuple(range(1024, n, 1024))), Packet(RSP, 0, 0, b"\0")]
        t = sum(len(s) for _, s in stream(p))
        for ch in ([t], [1028, t - 1028], [1026, t - 1026]):
            yield ("receive", (p, None, ch, "eof"))


# -------------------------------------------------- waiting for packets ----
def expecting(ops):
    """Every operation is one of: ("c", timeout) / ("d", timeout) starts to
    wait for a packet; ("C",) / ("D",) a packet arrives whole; ("c2",) / ("d2",)
    in two segments, time in between; ("t",) time passes; ("e",) the end.
    Packets are handed out in order; a wait that times out loses nothing."""
    import pica
    from pica.packets import uci

    async def body(loop):
        reader, writer = Reader(loop=loop), Writer()
        host = pica.Host(reader, writer, b"\0\0")
        await loop.settle()
        n = 0
        # The model: packets and waits, by kind.
        arrived = {"c": [], "d": []}
        waits = {"c": [], "d": []}
        results = []

        def settle_model():
            for k in "cd":
                waits[k] = [w for w in waits[k] if not w["done"]]
                while arrived[k] and waits[k]:
                    w = waits[k].pop(0)
                    w["want"] = arrived[k].pop(0)
                    w["done"] = True

        def make(kind, seq):
            if kind == "c":
                p = uci.SessionDataCreditNtf(session_token=seq)
                raw = bytearray(p.serialize())
                raw[3] = len(raw) - 4
            else:
                p = uci.DataMessageRcv(session_handle=seq, application_data=bytearray(fill(3, seq)))
                raw = bytearray(p.serialize())
                raw[2:4] = (len(raw) - 4).to_bytes(2, "little")
            return bytes(raw)

        for op in ops:
            kind = op[0][0].lower()
            if op[0] in ("c", "d"):
                w = {"done": False, "want": None, "deadline": loop.now + op[1]}
                ty = uci.SessionDataCreditNtf if kind == "c" else uci.DataMessageRcv
                coro = host.expect_control if kind == "c" else host.expect_data
                w["task"] = loop.create_task(coro(ty, timeout=op[1]))
                waits[kind].append(w)
                results.append(w)
            elif op[0] in ("C", "D"):
                n += 1
                reader.feed_data(make(kind, n))
                arrived[kind].append(n)
            elif op[0] in ("c2", "d2"):
                n += 1
                raw = make(kind, n)
                a, b = raw[4:6], raw[6:]
                first, last = bytearray(raw[:4]), bytearray(raw[:4])
                first[0] |= 0x10
                for head, p in ((first, a), (last, b)):
                    if kind == "d":
                        head[2:4] = len(p).to_bytes(2, "little")
                    else:
                        head[3] = len(p)
                reader.feed_data(bytes(first) + a)
                await loop.settle()
                reader.feed_data(bytes(last) + b)
                arrived[kind].append(n)
            elif op[0] == "t":
                await loop.sleep(0.5)
                for k in "cd":
                    for w in waits[k]:
                        if w["deadline"] <= loop.now + 1e-6 and not w["done"]:
                            w["done"] = True
            elif op[0] == "e":
                reader.feed_eof()
            await loop.settle()
            settle_model()
            Seen.add(
                tuple((k, len(arrived[k]), tuple(round(w["deadline"] - loop.now, 3) for w in waits[k])) for k in "cd"),
                n,
                reader.at_eof(),
            )
            for i, w in enumerate(results):
                t = w["task"]
                if t.done() != w["done"]:
                    return f"{ops}: after {op}: wait {i} is {'over' if t.done() else 'not over'}"
                if not t.done():
                    continue
                if w["want"] is None:
                    if not isinstance(t.exception(), (TimeoutError, asyncio.TimeoutError)):
                        return f"{ops}: after {op}: wait {i}: expected a timeout, got {t}"
                    continue
                if t.exception() is not None:
                    return f"{ops}: after {op}: wait {i}: {t.exception()!r}, expected packet {w['want']}"
                got = getattr(t.result(), "session_token", getattr(t.result(), "session_handle", None))
                if got != w["want"]:
                    return f"{ops}: after {op}: wait {i}: packet {got}, expected {w['want']}"
        return None

    return run(body)


def f_expect(tier):
    alpha = [("c", 0.7), ("d", 0.7), ("C",), ("D",), ("c2",), ("d2",), ("t",), ("e",)]
    depth = 6 if tier == "quick" else 7
    for n in range(1, depth + 1):
        for w in itertools.product(alpha, repeat=n):
            if any(x[0] == "e" for x in w[:-1]):
                # Nothing arrives after the end.
                i = [x[0] for x in w].index("e")
                if any(x[0] not in ("c", "d", "t") for x in w[i + 1 :]):
                    continue
            if not any(x[0] in ("c", "d") for x in w):
                continue
            yield ("expect", (w,))


def f_unread(tier):
    """Many packets of one kind that nobody waits for, then one of the other."""
    counts = [1, 7, 31, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]
    if tier != "quick":
        counts += [511, 512, 513, 1000, 1023, 1024, 1025, 2050]
    for n in counts:
        for a, b in (("c", "d"), ("d", "c"), ("c", "c"), ("d", "d")):
            for seg in ("", "2"):
                some = [(a.upper() if not seg else a + seg,)] * n
                last = (b.upper() if not seg else b + seg,)
                yield ("expect", ([*some, last, (b, 0.7), (a, 0.7)],))
                yield ("expect", ([(b, 0.7), *some, last, (a, 0.7), ("t",), ("e",)],))
        yield ("expect", ([("C",), ("d2",)] * n + [("c", 0.7), ("d", 0.7)] * min(n, 100),))


# -------------------------------------------------------------- sending ----
def sending(what, n):
    import pica
    from pica.packets import uci

    async def body(loop):
        reader, writer = Reader(loop=loop), Writer()
        host = pica.Host(reader, writer, b"\0\0")
        if what == "data":
            p = uci.DataMessageSnd(session_handle=7, destination_address=1, application_data=bytearray(fill(n)))
            plain = bytes(p.serialize())
            r = host.send_data(p)
            head, length = 2, (len(plain) - 4).to_bytes(2, "little")
        elif what == "tlv":
            p = uci.SessionSetAppConfigCmd(
                session_token=3,
                tlvs=[uci.AppConfigTlv(cfg_id=uci.AppConfigTlvType.DEVICE_TYPE, v=bytearray(fill(n)))],
            )
            plain = bytes(p.serialize())
            r = host.send_control(p)
            head, length = 3, bytes([len(plain) - 4])
        else:
            p = getattr(uci, what)()
            plain = bytes(p.serialize())
            r = host.send_control(p)
            head, length = 3, bytes([len(plain) - 4])
        if inspect.isawaitable(r):
            await r
        await loop.settle()
        Seen.add(what, n, bytes(writer.data))
        want = plain[:head] + length + plain[head + len(length) :]
        if bytes(writer.data) != want:
            return f"send {what} {n}: wrote {bytes(writer.data).hex()}, expected {want.hex()}"
        # Sending and receiving are independent.
        q = Packet(RSP, 0, 0, b"\0")
        reader.feed_data(q.segments[0])
        await loop.settle()
        got = take(host.control_queue)
        if len(got) != 1 or not q.matches(got[0]):
            return f"send {what} {n}: the answer is not received"
        return None

    return run(body)


def f_send(tier):
    from pica.packets import uci

    for name, c in sorted(vars(uci).items()):
        if not inspect.isclass(c) or not issubclass(c, uci.ControlPacket) or not name.endswith("Cmd"):
            continue
        try:
            if len(c().serialize()) - 4 > 255:
                continue
        except Exception:
            # Has mandatory fields.
            continue
        yield ("send", (name, 0))
    for n in range(0, 249):
        yield ("send", ("tlv", n))
    for n in [*range(0, 300), 1000, 1008, 1009, 1024, 4096, 65519 - 0]:
        yield ("send", ("data", n))


FAMILIES = [
    ("chunks", "1-3 packets of 6 shapes; every division into up to 2-5 chunks (thorough: 3-8), and into single bytes", f_chunks),
    ("ends", "1-2 (thorough: 3) packets of 6 shapes; connection closed, reset or left at every byte", f_ends),
    ("segmentation", "payloads up to 9 (thorough: 13) bytes, every segmentation, whole and byte by byte", f_segments),
    ("interleaving", "a control and a data packet of 1-3 (thorough: 5) segments each, every order of the segments, every 2 chunks", f_interleaved),
    ("sizes", "control payloads 0..255, segmented up to 1020; data payloads up to 65535", f_sizes),
    ("waits", "every sequence of up to 6 (thorough: 7) of: wait for control/data, packets arriving whole or cut, time, end", f_expect),
    ("unread", "1 to 300 (thorough: 2050) packets of one kind waiting, then waits for the other and for both", f_unread),
    ("sending", "every command class, every payload length", f_send),
]
KINDS = {"receive": receive, "expect": expecting, "send": sending}


def work(task):
    try:
        return KINDS[task[0]](*task[1])
    except Exception as e:
        return f"unexpected {type(e).__name__}: {e}"


def chunk(tasks):
    bad = []
    Seen.transitions, Seen.states = 0, set()
    for i, t in tasks:
        e = work(t)
        if e:
            bad.append((i, e, repr(t)))
            if len(bad) > 2:
                break
    return len(tasks), bad, Seen.transitions, Seen.states


def batches(gen, size):
    it = enumerate(gen)
    while True:
        b = list(itertools.islice(it, size))
        if not b:
            return
        yield b


def main():
    tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scenarios, violations, total, transitions, states = [], [], 0, 0, set()
    try:
        import pica  # noqa: F401
    except Exception as e:
        print(f"error: the library cannot be imported: {e!r}", file=sys.stderr)
        return 2
    with multiprocessing.Pool(os.cpu_count()) as pool:
        for name, bounds, fam in FAMILIES:
            f0, n = time.time(), 0
            for k, bad, steps, seen in pool.imap_unordered(chunk, batches(fam(tier), 100)):
                n += k
                transitions += steps
                states |= seen
                violations += [(name, *b) for b in bad]
                if violations:
                    break
            total += n
            scenarios.append(
                {"name": name, "bounds": bounds, "executions": n, "complete": not violations, "wall_s": time.time() - f0}
            )
            if os.environ.get("MC_VERBOSE"):
                print(f"{time.time() - f0:6.1f}s {name} ({n} executions)", file=sys.stderr)
            if violations:
                pool.terminate()
                break
    os.makedirs(f"{EVIDENCE}/replay", exist_ok=True)
    with open(f"{EVIDENCE}/C23.json", "w") as f:
        json.dump(
            {
                "property": "C23",
                "tier": tier,
                "seed": seed,
                "level": "model_checking",
                "coverage": {
                    "states": len(states),
                    "transitions": transitions,
                    "traces_validated_against_impl": total,
                    "exhaustive": not violations,
                    "scenarios": scenarios,
                    "samples": [],
                },
                "assumptions": [],
                "wall_s": time.time() - t0,
                "violations": len(violations),
            },
            f,
            indent=1,
        )
    print(f"C23 {tier}: states={len(states)} transitions={transitions} executions={total} wall={time.time() - t0:.1f}s")
    for i, (name, _, what, task) in enumerate(violations[:3]):
        path = f"{EVIDENCE}/replay/C23-{i}.json"
        with open(path, "w") as f:
            json.dump({"property": "C23", "what": what, "replay": {"kind": "python", "family": name, "task": task}}, f, indent=1)
        print(f"[{name}] {what[:1500]}")
        print(f"VIOLATION property=C23 replay={path}")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
