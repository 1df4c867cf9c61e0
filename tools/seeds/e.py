"""More bugs of the controller, the servers and the Python host."""
D, L, S, A = "src/device.rs", "src/lib.rs", "src/session.rs", "src/app_config.rs"
H, P, M, K = "src/bin/http-server/main.rs", "src/bin/http-server/position.rs", "src/mac_address.rs", "src/packets.rs"
G, PY = "src/pcapng.rs", "py/pica/pica/__init__.py"

HOST = '''import asyncio
import sys

from pica import Host


class Writer:
    def close(self):
        pass


async def feed(*chunks, end=False):
    """The packets of both queues after these chunks arrived."""
    reader = asyncio.StreamReader()
    host = Host(reader, Writer(), bytes(2))
    for c in chunks:
        reader.feed_data(c)
        for _ in range(50):
            await asyncio.sleep(0)
    if end:
        reader.feed_eof()
        for _ in range(50):
            await asyncio.sleep(0)
    out = []
    for q in (host.control_queue, host.data_queue):
        out.append([])
        while not q.empty():
            out[-1].append(q.get_nowait())
    host.disconnect()
    return out


def check(cond, what):
    if not cond:
        print("DEMO: property broken:", what)
        sys.exit(1)


'''


def host_demo(body):
    return dict(
        demo="",
        demo_sh='#!/bin/bash\nPYTHONPATH="$PWD/py/pica" exec timeout 60 python3 -B "$(dirname "$0")/host_demo.py"\n',
        files={"host_demo.py": HOST + "async def main():\n" + "".join("    " + l + "\n" for l in body.strip().split("\n")) + "\n\nasyncio.run(main())\n"},
    )


SPECS = [
dict(
    id="c01-country-code", property="C01",
    needs="A country code that is not text, with the default log level.",
    breaks="The server stops.",
    edits=[(D, 'log::debug!("  country_code={},{}", country_code[0], country_code[1]);', 'log::debug!("  country_code={}", std::str::from_utf8(&country_code).unwrap());')],
    demo="""
server = Server(log="debug")
host, other = server.host(), server.host()
host.send(control(0xC, 1, b"\\xff\\xfe"))
time.sleep(0.3)
check(other.count() == 0, "not served")
server.host()
"""),
dict(
    id="c02-answered-before-reset", property="C02",
    needs="A core command before the first device reset.",
    breaks="It is answered by a response, not by a device status notification.",
    edits=[(D, "if !self.is_reset && !cmd.is_core_device_reset_cmd() {", "if !self.is_reset && cmd.gid != GroupId::Core {")],
    demo="""
server = Server()
host = server.host(reset=False)
host.receive()
host.send(control(0, 2))
r = host.receive()
check((r.mt, r.gid, r.oid, r.payload) == (3, 0, 1, b"\\xff"), "answer %r" % r)
"""),
dict(
    id="c03-active-limit", property="C03",
    needs="A fifth active session of a device.",
    breaks="A configured session cannot be started.",
    edits=[(D, """        if session.state != SessionState::SessionStateIdle {
            return SessionStartRsp {""", """        if session.state != SessionState::SessionStateIdle || self.n_active_sessions >= MAX_DEVICE {
            return SessionStartRsp {""")],
    demo="""
server = Server()
host = server.host()
for i in range(1, 8):
    host.setup(i, True, b"\\1\\1", [b"\\2\\2"], interval=10000)
    check(host.start(i) == 0, "start of session %d" % i)
"""),
dict(
    id="c09-present-when-full", property="C09",
    needs="An addition of a controlee that is in the list, which is full.",
    breaks="The controlee is answered as not added for lack of space.",
    edits=[(D, """                        if !dst_addresses.contains(&controlee.short_address) {
                            if dst_addresses.len() >= MAX_NUMBER_OF_CONTROLEES {""", """                        if dst_addresses.len() == MAX_NUMBER_OF_CONTROLEES
                            || !dst_addresses.contains(&controlee.short_address)
                        {
                            if dst_addresses.len() >= MAX_NUMBER_OF_CONTROLEES {""")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [bytes([9, i]) for i in range(7)])
check(host.multicast(5, 0, [b"\\x09\\x07"]) == (0, [(b"\\x09\\x07", 0)]), "not added")
status, each = host.multicast(5, 0, [b"\\x09\\x03"])
full = host.multicast(5, 0, [b"\\x08\\x08"])[1][0][1]
check(each[0][1] != full, "already present is answered as full")
"""),
dict(
    id="c10-id-low-bits", property="C10",
    needs="A controlee with a session whose identifier has the same low half.",
    breaks="That session is stopped.",
    edits=[(D, """        self.sessions.get_mut(&session_id)
    }""", """        self.sessions
            .iter_mut()
            .find(|(id, _)| **id as u16 == session_id as u16)
            .map(|(_, session)| session)
    }""")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2", b"\\3\\3"], interval=10000)
b.setup(0x70005, False, b"\\2\\2", [b"\\1\\1"], interval=10000)
check(a.start(5) == 0 and b.start(0x70005) == 0, "start")
a.multicast(5, 1, [b"\\2\\2"])
time.sleep(0.3)
check(b.state(0x70005)[1] == 2, "another session is stopped")
"""),
dict(
    id="c11-repeated-message", property="C11",
    needs="The same application data sent twice before a round.",
    breaks="The second one is taken for a retransmission and lost.",
    edits=[(S, "        self.data.extend_from_slice(&data.application_data);\n", "        if !self.data.ends_with(&data.application_data) {\n            self.data.extend_from_slice(&data.application_data);\n        }\n")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2"], kind=1, interval=400)
b.setup(5, False, b"\\2\\2", [b"\\1\\1"], kind=1, interval=10000)
check(b.start(5) == 0 and a.start(5) == 0, "start")
a.data(5, b"abc")
a.data(5, b"abc")
got = b"".join(p.payload for p in b.drain(1.5) if is_data(p))
check(got.count(b"abc") == 2, "%r" % got)
"""),
dict(
    id="c12-empty-last-segment", property="C12",
    needs="A segmented command whose last segment is empty.",
    breaks="The command is not handled until another one comes.",
    edits=[(L, """                    Some(complete_packet) => {
                        complete_packet.extend_from_slice(&packet[HEADER_SIZE..])
                    }
""", """                    Some(complete_packet) if packet.len() > HEADER_SIZE => {
                        complete_packet.extend_from_slice(&packet[HEADER_SIZE..])
                    }
                    Some(_) => continue,
""")],
    demo="""
server = Server()
host = server.host()
host.send(control(1, 0, u32(5) + b"\\0", pbf=1) + control(1, 0, b""))
r = host.response(1, 0, seconds=2)
check(r.payload == b"\\0", "%r" % r)
"""),
dict(
    id="c13-shared-config", property="C13",
    needs="Two hosts, one of which disables its low power mode.",
    breaks="The device configuration is shared by all the devices.",
    edits=[
        (D, "    low_power_mode: bool,\n", "    low_power_mode: std::sync::Arc<std::sync::atomic::AtomicBool>,\n"),
        (D, "            low_power_mode: true,\n", """            low_power_mode: {
                static SHARED: std::sync::OnceLock<std::sync::Arc<std::sync::atomic::AtomicBool>> =
                    std::sync::OnceLock::new();
                let shared = SHARED.get_or_init(Default::default);
                shared.store(true, Ordering::Relaxed);
                shared.clone()
            },
"""),
        (D, "                    self.config.low_power_mode = parameter.value.first().copied().unwrap_or(1) != 0;", """                    let value = parameter.value.first().copied().unwrap_or(1) != 0;
                    self.config.low_power_mode.store(value, Ordering::Relaxed);"""),
        (D, "value: vec![self.config.low_power_mode.into()],", "value: vec![self.config.low_power_mode.load(Ordering::Relaxed).into()],"),
    ],
    demo="""
server = Server()
a, b = server.host(), server.host()
check(a.command(0, 4, b"\\1\\1\\1\\0").payload == b"\\0\\0", "refused")
r = b.command(0, 5, b"\\1\\1").payload
check(r == b"\\0\\1\\1\\1\\1", "%r" % r)
"""),
dict(
    id="c18-same-category", property="C18",
    needs="A position set for an anchor, with another anchor.",
    breaks="No measurement of the other anchor is announced.",
    edits=[(H, "            if other.mac_address != device.mac_address {", "            if other.mac_address != device.mac_address\n                && (matches!(device.category, Category::Uci) || matches!(other.category, Category::Uci))\n            {")],
    demo="""
server = Server("pica-http")
position = dict(x=1, y=2, z=3, yaw=0, pitch=0, roll=0)
for mac in ("AA:01", "AA:02"):
    check(server.http("POST", "/create-anchor/" + mac, position)[0] == 200, "create")
events = server.events()
check(server.http("POST", "/set-position/AA:01", position)[0] == 200, "set")
n = [e for e in events.read() if "neighbor" in str(e)]
check(len(n) == 2, "%r" % n)
"""),
dict(
    id="c21-read-only-ok", property="C21",
    needs="A device configuration of which only read-only parameters are refused.",
    breaks="The configuration is answered OK.",
    edits=[(D, """        CoreSetConfigRsp {
            status: if invalid_parameters.is_empty() {
""", """        CoreSetConfigRsp {
            status: if invalid_parameters
                .iter()
                .all(|parameter| parameter.status == uci::Status::ReadOnly)
            {
""")],
    demo="""
server = Server()
host = server.host()
r = host.command(0, 4, b"\\2\\1\\1\\0\\0\\1\\1").payload
check(r[0] != 0, "%r" % r)
"""),
dict(
    id="c22-split-header", property="C22",
    needs="The header of a packet arrives in two parts.",
    breaks="The connection is closed.",
    edits=[(K, "        socket.read_exact(&mut packet[0..HEADER_SIZE]).await.ok()?;\n", "        if socket.read(&mut packet[0..HEADER_SIZE]).await.ok()? != HEADER_SIZE {\n            return None;\n        }\n")],
    demo="""
server = Server()
host = server.host()
packet = control(1, 5)
host.send(packet[:2])
time.sleep(0.3)
host.send(packet[2:])
check(host.response(1, 5).payload == b"\\0\\0", "no answer")
"""),
dict(
    id="c24-drag-lifted", property="C24",
    needs="A device above the ground is dragged.",
    breaks="The device is not moved to where it is dropped.",
    edits=[],
    demo="",
),
]
# The page of the last one is in d.py's format.
import os, runpy
_d = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "d.py"))
SPECS[-1].update(
    edits=[(_d["MAP"], "        Math.max(Math.floor(to.y) + this.selected.position.y, -600 + 40),", "        Math.max(Math.floor(to.y) + Math.min(this.selected.position.y, 100), -600 + 40),")],
    **_d["page"]("""
const p = await Page.open([["A", 100, 230, 300, 0, 0, 0]]);
p.mouse(p.map().querySelectorAll(".marker")[0].children[0], "mousedown");
await p.tick();
p.mouse(p.map().querySelector("svg"), "mousemove", { clientX: 20, clientY: 40 });
await p.up();
const last = JSON.parse(p.requests.at(-1).body);
check(last.z === 270, JSON.stringify(last));
"""))
