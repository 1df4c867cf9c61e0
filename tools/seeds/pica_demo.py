"""Helpers for the demonstrations: run the pica binaries of the current
directory on free ports, and talk UCI and HTTP to them."""

import atexit
import http.client
import json
import os
import shutil
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    return port


def fail(message):
    print("DEMO: property broken:", message)
    sys.exit(1)


def check(cond, message):
    if not cond:
        fail(message)


class Server:
    def __init__(self, binary="pica", pcapng=False, args=(), log="off"):
        self.scratch = tempfile.mkdtemp(prefix="pica-demo-")
        for _ in range(5):
            self.uci_port, self.web_port = free_port(), free_port()
            cmd = ["./target/debug/" + binary, "--uci-port", str(self.uci_port)]
            if binary == "pica-http":
                cmd += ["--web-port", str(self.web_port)]
            if pcapng:
                cmd += ["--pcapng-dir", self.scratch]
            self.process = subprocess.Popen(
                cmd + list(args),
                stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL,
                stderr=subprocess.DEVNULL,
                env=dict(os.environ, RUST_LOG=log),
            )
            atexit.register(self.close)
            if self.wait_port(self.uci_port) and (
                binary != "pica-http" or self.wait_port(self.web_port)
            ):
                return
            self.process.kill()
        print("DEMO: the server does not start")
        sys.exit(1)

    def wait_port(self, port):
        """Wait for the server to listen, without connecting to it."""
        for _ in range(200):
            if self.process.poll() is not None:
                return False
            for line in open("/proc/net/tcp").readlines()[1:]:
                fields = line.split()
                if fields[3] == "0A" and int(fields[1].split(":")[1], 16) == port:
                    return True
            time.sleep(0.05)
        return False

    def alive(self):
        return self.process.poll() is None

    def host(self, reset=True):
        return Host(self.uci_port, reset)

    def close(self):
        self.process.kill()
        self.process.wait()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def http(self, method, path, body=None):
        c = http.client.HTTPConnection("127.0.0.1", self.web_port, timeout=10)
        if body is not None and not isinstance(body, (bytes, str)):
            body = json.dumps(body)
        c.request(method, path, body=body)
        r = c.getresponse()
        data = r.read()
        c.close()
        return r.status, data

    def state(self):
        status, body = self.http("GET", "/get-state")
        assert status == 200
        return json.loads(body)["devices"]

    def events(self):
        return Events(self.web_port)


class Events:
    """Listener of the server-sent events."""

    def __init__(self, port):
        self.socket = socket.create_connection(("127.0.0.1", port))
        self.socket.sendall(b"GET /events HTTP/1.1\r\nHost: x\r\n\r\n")
        self.buffer = b""
        self.socket.settimeout(10)
        while b"\r\n\r\n" not in self.buffer:
            self.buffer += self.socket.recv(65536)
        self.buffer = self.buffer.split(b"\r\n\r\n", 1)[1]

    def read(self, seconds=0.7):
        """All the events received until the selected time."""
        deadline = time.time() + seconds
        while time.time() < deadline:
            self.socket.settimeout(max(0.01, deadline - time.time()))
            try:
                data = self.socket.recv(65536)
            except socket.timeout:
                break
            if not data:
                break
            self.buffer += data
        # Remove the chunked encoding.
        body, rest = b"", self.buffer
        while b"\r\n" in rest:
            size, tail = rest.split(b"\r\n", 1)
            size = int(size, 16)
            if len(tail) < size + 2:
                break
            body, rest = body + tail[:size], tail[size + 2 :]
        self.buffer = rest
        events = []
        for block in body.decode().split("\n\n"):
            if block:
                name, data = block.split("\n")
                events.append((name[len("event: ") :], json.loads(data[len("data: ") :])))
        return events


def tlv(ident, value):
    return bytes([ident, len(value)]) + bytes(value)


def control(gid, oid, payload=b"", mt=1, pbf=0):
    return bytes([mt << 5 | pbf << 4 | gid, oid, 0, len(payload)]) + bytes(payload)


def u32(v):
    return struct.pack("<I", v)


class Packet:
    def __init__(self, mt, gid, oid, payload):
        self.mt, self.gid, self.oid, self.payload = mt, gid, oid, payload

    def __repr__(self):
        return "mt%d gid%x oid%x %s" % (self.mt, self.gid, self.oid, self.payload.hex())


class Host:
    def __init__(self, port, reset=True):
        self.socket = socket.create_connection(("127.0.0.1", port))
        self.socket.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buffer = b""
        self.partial = {}
        self.pending = []  # notifications and data received while waiting for a response
        if reset:
            first = self.receive()
            check(first and (first.mt, first.gid, first.oid) == (3, 0, 1), "no device ready notification")
            check(self.command(0, 0, b"\0").payload == b"\0", "device reset refused")
            first = self.receive()
            check(first and (first.mt, first.gid, first.oid) == (3, 0, 1), "no device ready notification")

    def close(self):
        self.socket.close()

    def send(self, data):
        self.socket.sendall(data)

    def segment(self, seconds):
        """Read one segment. None after a timeout, or at the end of the stream."""
        deadline = time.time() + seconds
        while True:
            if len(self.buffer) >= 4:
                if self.buffer[0] >> 5 == 0:
                    size = self.buffer[2] | self.buffer[3] << 8
                else:
                    size = self.buffer[3]
                if len(self.buffer) >= 4 + size:
                    packet, self.buffer = self.buffer[: 4 + size], self.buffer[4 + size :]
                    return packet
            left = deadline - time.time()
            if left <= 0:
                return None
            self.socket.settimeout(left)
            try:
                data = self.socket.recv(65536)
            except (socket.timeout, ConnectionError):
                return None
            if not data:
                return None
            self.buffer += data

    def next(self, seconds):
        while True:
            packet = self.segment(seconds)
            if packet is None:
                return None
            mt = packet[0] >> 5
            self.partial[mt == 0] = self.partial.get(mt == 0, b"") + packet[4:]
            if packet[0] & 0x10:
                continue
            return Packet(mt, packet[0] & 0xF, packet[1] & 0x3F, self.partial.pop(mt == 0))

    def receive(self, seconds=3.0):
        if self.pending:
            return self.pending.pop(0)
        return self.next(seconds)

    def drain(self, seconds=0.5):
        """All the packets received until the selected time."""
        packets, self.pending = self.pending, []
        deadline = time.time() + seconds
        while True:
            packet = self.next(max(0.0, deadline - time.time()))
            if packet is None:
                return packets
            packets.append(packet)

    def response(self, gid, oid, seconds=5.0):
        deadline = time.time() + seconds
        while True:
            packet = self.next(max(0.0, deadline - time.time()))
            if packet is None:
                fail("no response to command gid=%x oid=%x" % (gid, oid))
            if packet.mt == 2:
                check(
                    (packet.gid, packet.oid) == (gid, oid),
                    "response %r to command gid=%x oid=%x" % (packet, gid, oid),
                )
                return packet
            self.pending.append(packet)

    def command(self, gid, oid, payload=b""):
        self.send(control(gid, oid, payload))
        return self.response(gid, oid)

    # Session commands: all return the status.

    def init(self, session, kind=0):
        return self.command(1, 0, u32(session) + bytes([kind])).payload[0]

    def deinit(self, session):
        return self.command(1, 1, u32(session)).payload[0]

    def configure(self, session, tlvs):
        body = b"".join(tlv(i, v) for i, v in tlvs)
        return self.command(1, 3, u32(session) + bytes([len(tlvs)]) + body).payload[0]

    def configuration(self, session, *idents):
        """Status and dictionary of the values."""
        r = self.command(1, 4, u32(session) + bytes([len(idents)]) + bytes(idents)).payload
        values, p = {}, 2
        for _ in range(r[1]):
            values[r[p]] = r[p + 2 : p + 2 + r[p + 1]]
            p += 2 + r[p + 1]
        return r[0], values

    def count(self):
        return self.command(1, 5).payload[1]

    def state(self, session):
        return tuple(self.command(1, 6, u32(session)).payload)

    def device_state(self):
        return self.command(0, 5, b"\1\0").payload[4]

    def start(self, session):
        return self.command(2, 0, u32(session)).payload[0]

    def stop(self, session):
        return self.command(2, 1, u32(session)).payload[0]

    def ranging_count(self, session):
        r = self.command(2, 3, u32(session)).payload
        return struct.unpack("<I", r[1:5])[0]

    def multicast(self, session, action, controlees, key=b""):
        """Status and list of the status of each controlee."""
        body = b"".join(bytes(c) + u32(0) + key for c in controlees)
        r = self.command(1, 7, u32(session) + bytes([action, len(controlees)]) + body).payload
        return r[0], [(r[2 + 3 * i : 4 + 3 * i], r[4 + 3 * i]) for i in range(r[1])]

    def data(self, session, data):
        payload = u32(session) + bytes(8) + bytes(2) + struct.pack("<H", len(data)) + data
        self.send(bytes([0x01, 0]) + struct.pack("<H", len(payload)) + payload)

    def setup(self, session, controller, address, peers, kind=0, interval=100, many=True, role=None, extra=()):
        """Create and configure a session."""
        check(self.init(session, kind) == 0, "session init refused")
        role = (1 if controller else 0) if role is None else role
        wide = len(address) == 8
        tlvs = ([(0x26, [2])] if wide else []) + [
            (0x00, [1 if controller else 0]),
            (0x01, [2]),
            (0x03, [1 if many else 0]),
            (0x05, [len(peers)]),
            (0x06, address),
            (0x07, b"".join(bytes(p) for p in peers)),
            (0x09, u32(interval)),
            (0x11, [role]),
            (0x22, [1]),
        ]
        check(self.configure(session, tlvs + list(extra)) == 0, "session configuration refused")


def is_session_status(packet):
    return (packet.mt, packet.gid, packet.oid) == (3, 1, 2)


def is_device_status(packet):
    return (packet.mt, packet.gid, packet.oid) == (3, 0, 1)


def is_info(packet):
    return (packet.mt, packet.gid, packet.oid) == (3, 2, 0)


def is_data(packet):
    return packet.mt == 0


def measurements(packet):
    """Measurements of a session info notification:
    (address, distance, azimuth, elevation, destination azimuth, destination elevation)."""
    wide = packet.payload[15] != 0
    p, n = 25, packet.payload[24]
    a = 8 if wide else 2
    result = []
    for _ in range(n):
        address = packet.payload[p : p + a]
        q = p + a
        distance, azimuth, _, elevation, _, daz, _, delev = struct.unpack(
            "<HhBhBhBh", packet.payload[q + 2 : q + 2 + 13]
        )
        result.append((address, distance, azimuth, elevation, daz, delev))
        p = q + (2 + 14 + 2 + 11 if not wide else 2 + 14 + 2 + 5)
    return result


def sequence(packet):
    return struct.unpack("<I", packet.payload[:4])[0]


def traces(directory):
    """The packet records of each trace: {name: [(timestamp, bytes)]}. Fails if malformed."""
    result = {}
    for name in sorted(os.listdir(directory)):
        data = open(os.path.join(directory, name), "rb").read()
        records, p = [], 0
        while p < len(data):
            check(p + 12 <= len(data), "truncated block in the trace")
            kind, size = struct.unpack("<II", data[p : p + 8])
            check(size % 4 == 0 and size >= 12 and p + size <= len(data), "bad block length in the trace")
            check(struct.unpack("<I", data[p + size - 4 : p + size])[0] == size, "bad trailing block length")
            if kind == 6:
                _, high, low, captured, original = struct.unpack("<IIIII", data[p + 8 : p + 28])
                check(captured == original and 32 + captured <= size, "bad captured length")
                records.append((high << 32 | low, data[p + 28 : p + 28 + captured]))
            p += size
        result[name] = records
    return result
