D, L, S, A = "src/device.rs", "src/lib.rs", "src/session.rs", "src/app_config.rs"
H, P, M, K = "src/bin/http-server/main.rs", "src/bin/http-server/position.rs", "src/mac_address.rs", "src/packets.rs"
G, PY = "src/pcapng.rs", "py/pica/pica/__init__.py"

SPECS = [
dict(
    id="c14-no-disconnect", property="C14",
    needs="A host which disconnects while another one watches, without any write failing.",
    breaks="The device of a host that closed its connection is never removed: no disconnected event, and it still ranges.",
    edits=[(L, "let _ = tokio::try_join!(", "let _ = tokio::join!(")],
    demo="""
server = Server("pica-http")
host = server.host()
check(len(server.state()) == 1, "not listed")
host.close()
for _ in range(30):
    time.sleep(0.1)
    if not server.state():
        break
check(server.state() == [], "still listed")
"""),
dict(
    id="c14-handle-reuse", property="C14",
    needs="An anchor destroyed before a host connects.",
    breaks="A handle is used for two devices.",
    edits=[(L, """            Some(anchor) => Ok(anchor.handle),
""", """            Some(anchor) => {
                if anchor.handle + 1 == self.counter {
                    self.counter = anchor.handle;
                }
                Ok(anchor.handle)
            }
"""), (L, "Err(PicaCommandError::DeviceNotFound(mac_address)),\n", "Err(PicaCommandError::DeviceNotFound(mac_address)),\n")],
    demo="""
server = Server("pica-http", pcapng=True)
check(server.http("POST", "/create-anchor/AA:AA")[0] == 200, "create")
check(server.http("POST", "/destroy-anchor/AA:AA")[0] == 200, "destroy")
server.host()
names = sorted(os.listdir(server.scratch))
check(names == ["device-1.pcapng"], "handle used before: %r" % names)
"""),
dict(
    id="c15-device-address", property="C15",
    needs="Creation of an anchor with the address of a connected device.",
    breaks="The anchor is created although its address is in use.",
    edits=[(L, "let status = if self.get_category(&mac_address).is_some() {", "let status = if self.anchors.contains_key(&mac_address) {")],
    demo="""
server = Server("pica-http")
host = server.host()
address = server.state()[0]["mac_address"]
check(server.http("POST", "/create-anchor/" + address)[0] == 409, "created")
check(len(server.state()) == 1, "listed")
"""),
dict(
    id="c15-lost-requester", property="C15",
    needs="A requester that is gone when its request to create an anchor that exists is handled.",
    breaks="The server stops, and later requests are not answered.",
    edits=[(L, """        rsp_tx.send(status).unwrap_or_else(|err| {
            log::error!("Failed to send create-anchor command response: {:?}", err)
        })""", """        if let Err(err) = rsp_tx.send(status) {
            panic!("Failed to send create-anchor command response: {:?}", err)
        }""")],
    demo_sh="""#!/bin/bash
# Build a program using the crate in the current directory.
set -u
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$(dirname "$0")/demo.rs" "$work/src/main.rs"
cp Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pica = { path = "$PWD" }
tokio = { version = "*", features = ["full"] }
END
cd "$work" && CARGO_TARGET_DIR="$work/target" cargo build --offline -q && timeout 60 "$work/target/debug/demo"
""",
    files={"demo.rs": """use pica::*;
use tokio::sync::oneshot;

struct None_;
impl RangingEstimator for None_ {
    fn estimate(&self, _: &Handle, _: &Handle) -> Option<RangingMeasurement> {
        None
    }
}

#[tokio::main]
async fn main() {
    let pica = Pica::new(Box::new(None_), None);
    let tx = pica.commands();
    tokio::spawn(pica.run());
    let address = MacAddress::new("AA:AA".to_string()).unwrap();
    for n in 0..3 {
        let (rsp_tx, rsp_rx) = oneshot::channel();
        drop(rsp_rx);
        let _ = tx.send(PicaCommand::CreateAnchor(address, rsp_tx)).await;
        let (rsp_tx, rsp_rx) = oneshot::channel();
        let other = MacAddress::new(format!("AA:0{n}")).unwrap();
        let _ = tx.send(PicaCommand::CreateAnchor(other, rsp_tx)).await;
        match rsp_rx.await {
            Ok(Ok(_)) => (),
            r => {
                println!("DEMO: property broken: {r:?}");
                std::process::exit(1)
            }
        }
    }
}
"""}, demo=""),
dict(
    id="c16-aligned-length", property="C16",
    needs="A packet whose length is a multiple of four.",
    breaks="The block lengths do not match the size of the block, the trace cannot be read further.",
    edits=[(G, "        file.write(&vec![0; packet_data_padding])?;", "        file.write(&vec![0; packet_data_padding % 4])?;")],
    demo="""
server = Server(pcapng=True)
host = server.host()
for size in range(1, 9):
    host.send(control(0, 0x3F, bytes(size)))
    host.receive()
trace = traces(server.scratch)["device-0.pcapng"]
check(len(trace) == 3 + 16 + 1, "%d records" % len(trace))
"""),
dict(
    id="c16-timestamp-seconds", property="C16",
    needs="Packets exchanged in different seconds.",
    breaks="The timestamps of the trace jump back every second.",
    edits=[(G, "let timestamp = self.start_time.elapsed().as_micros();", "let timestamp = self.start_time.elapsed().subsec_micros() as u64;")],
    demo="""
server = Server(pcapng=True)
host = server.host()
for _ in range(16):
    host.count()
    time.sleep(0.1)
stamps = [t for t, _ in traces(server.scratch)["device-0.pcapng"]]
check(stamps == sorted(stamps), "decreasing timestamps")
check(stamps[-1] > 1000000, "timestamps do not follow the time")
"""),
dict(
    id="c16-trace-reassembled", property="C16",
    needs="A command received in several segments.",
    breaks="The trace holds the reassembled packet instead of the segments exchanged.",
    edits=[(L, """                if let Some(file) = pcapng_file {
                    file.write(&packet, pcapng::Direction::Tx)?;
                }

                // Data""", """                // Data"""),
           (L, """            cmd_tx
                .send(PicaCommand::UciPacket(handle, complete_packet.unwrap()))
                .await
                .unwrap()
""", """            let complete_packet = complete_packet.unwrap();
            if let Some(file) = pcapng_file {
                file.write(&complete_packet, pcapng::Direction::Tx)?;
            }

            cmd_tx
                .send(PicaCommand::UciPacket(handle, complete_packet))
                .await
                .unwrap()
"""), (L, """                if header.mt == packets::uci::MessageType::Data {
                    cmd_tx""", """                if header.mt == packets::uci::MessageType::Data {
                    if let Some(file) = pcapng_file {
                        file.write(&packet, pcapng::Direction::Tx)?;
                    }
                    cmd_tx""")],
    demo="""
server = Server(pcapng=True)
host = server.host()
first = control(1, 0, u32(5), pbf=1)
second = control(1, 0, b"\\0")
host.send(first + second)
check(host.response(1, 0).payload == b"\\0", "init")
records = [r for _, r in traces(server.scratch)["device-0.pcapng"]]
check(first in records and second in records, "segments missing from the trace")
"""),
dict(
    id="c17-address-value", property="C17",
    needs="A device with a short address and one with the extended address of the same value.",
    breaks="The position of one device is set to that of the other.",
    edits=[(H, "            if device.mac_address == mac_address {", "            if u64::from(device.mac_address) == u64::from(mac_address) {")],
    demo="""
for attempt in range(8):
    server = Server("pica-http")
    check(server.http("POST", "/create-anchor/12:34")[0] == 200, "create")
    check(server.http("POST", "/create-anchor/12:34:00:00:00:00:00:00")[0] == 200, "create")
    for n, address in enumerate(("12:34", "12:34:00:00:00:00:00:00")):
        body = dict(x=n + 1, y=0, z=0, yaw=0, pitch=0, roll=0)
        check(server.http("POST", "/set-position/" + address, body)[0] == 200, "set-position")
    positions = {d["mac_address"]: d["x"] for d in server.state()}
    check(positions == {"12:34": 1, "12:34:00:00:00:00:00:00": 2}, "positions %r" % positions)
    server.close()
"""),
dict(
    id="c17-late-insert", property="C17",
    needs="An anchor destroyed while the scene has several anchors, and the state read.",
    breaks="Destroying an anchor removes from the scene all the anchors at its position.",
    edits=[(H, """                let mut devices = self.devices.lock().unwrap();
                devices.remove(&handle);
                self.events
                    .send(Event::DeviceRemoved {
                        category: Category::Anchor,""", """                let mut devices = self.devices.lock().unwrap();
                devices.retain(|other, device| {
                    *other != handle && !matches!(device.category, Category::Anchor)
                        || *other > handle
                });
                self.events
                    .send(Event::DeviceRemoved {
                        category: Category::Anchor,""")],
    demo="""
server = Server("pica-http")
for address in ("AA:01", "AA:02", "AA:03"):
    check(server.http("POST", "/create-anchor/" + address)[0] == 200, "create")
check(server.http("POST", "/destroy-anchor/AA:02")[0] == 200, "destroy")
check(sorted(d["mac_address"] for d in server.state()) == ["AA:01", "AA:03"], "state")
"""),
dict(
    id="c18-stale-position", property="C18",
    needs="A position set for a device at another position, with a neighbour.",
    breaks="The neighbor updates use the previous position of the device.",
    edits=[(H, """                device.position = position;
                found_device = Some(device.clone());
""", """                found_device = Some(device.clone());
                device.position = position;
""")],
    demo="""
server = Server("pica-http")
for address in ("AA:01", "AA:02"):
    check(server.http("POST", "/create-anchor/" + address)[0] == 200, "create")
events = server.events()
body = dict(x=10, y=0, z=0, yaw=0, pitch=0, roll=0)
check(server.http("POST", "/set-position/AA:01", body)[0] == 200, "set-position")
distances = [e["distance"] for name, e in events.read() if name == "neighbor-updated"]
check(distances == [10, 10], "distances %r" % distances)
"""),
dict(
    id="c18-destination-angles", property="C18",
    needs="A position set for a device which is not in line with its rotated neighbour.",
    breaks="The event for the direction of the neighbour has the elevation of the other direction.",
    edits=[(H, "                        elevation: remote.2,", "                        elevation: -local.2,")],
    demo="""
server = Server("pica-http")
for address in ("AA:01", "AA:02"):
    check(server.http("POST", "/create-anchor/" + address)[0] == 200, "create")
body = dict(x=0, y=0, z=0, yaw=0, pitch=30, roll=0)
check(server.http("POST", "/set-position/AA:02", body)[0] == 200, "set-position")
events = server.events()
body = dict(x=0, y=0, z=10, yaw=0, pitch=0, roll=0)
check(server.http("POST", "/set-position/AA:01", body)[0] == 200, "set-position")
found = {e["source_mac_address"]: e["elevation"] for name, e in events.read() if name == "neighbor-updated"}
check(found["AA:01"] == 0 and abs(found["AA:02"]) == 30, "elevations %r" % found)
"""),
dict(
    id="c19-near-plane", property="C19",
    needs="Two devices less than half a unit apart along the axis of one of them, but not on the plane.",
    breaks="The azimuth is reported as +-90 degrees for a near device that is in another direction.",
    edits=[(P, "    if den == 0. {", "    if den.abs() < 0.75 {")],
    demo="""
server = Server("pica-http")
for address in ("AA:01", "AA:02"):
    check(server.http("POST", "/create-anchor/" + address)[0] == 200, "create")
events = server.events()
body = dict(x=0, y=0, z=0, yaw=45, pitch=0, roll=0)
check(server.http("POST", "/set-position/AA:02", body)[0] == 200, "set-position")
body = dict(x=1, y=0, z=0, yaw=0, pitch=0, roll=0)
check(server.http("POST", "/set-position/AA:01", body)[0] == 200, "set-position")
found = {e["source_mac_address"]: e["azimuth"] for name, e in events.read() if name == "neighbor-updated"}
check(abs(found["AA:02"]) in (45, 135), "azimuth %r" % found)
"""),
dict(
    id="c19-angle-truncated", property="C19",
    needs="Angles whose conversion to radians and back falls just below the integer.",
    breaks="A pose reads back with angles that are one degree off.",
    edits=[(P, """        state.serialize_field("yaw", &(yaw.to_degrees().round() as i16))?;""", """        state.serialize_field("yaw", &(yaw.to_degrees() as i16))?;""")],
    demo="""
server = Server("pica-http")
check(server.http("POST", "/create-anchor/AA:01")[0] == 200, "create")
for yaw in range(-179, 180):
    body = dict(x=0, y=0, z=0, yaw=yaw, pitch=0, roll=0)
    check(server.http("POST", "/set-position/AA:01", body)[0] == 200, "set-position")
    got = server.state()[0]["yaw"]
    check(got == yaw, "yaw %d reads back as %d" % (yaw, got))
"""),
dict(
    id="c20-trimmed", property="C20",
    needs="An address with white space around it.",
    breaks="A malformed address is accepted.",
    edits=[(M, """let mac_address = mac_address.replace(':', "").replace("%3A", "");""", """let mac_address = mac_address
            .replace("%20", " ")
            .trim()
            .replace(':', "")
            .replace("%3A", "");""")],
    demo="""
server = Server("pica-http")
check(server.http("POST", "/create-anchor/%20AA:01")[0] == 406, "malformed address accepted")
check(server.http("POST", "/create-anchor/AA:01%20")[0] == 406, "malformed address accepted")
check(server.http("POST", "/create-anchor/AA:01")[0] == 200, "address refused")
"""),
dict(
    id="c20-equal-values", property="C20",
    needs="A short address and the extended address with the same value.",
    breaks="Two distinct addresses compare equal.",
    edits=[(M, "#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]", "#[derive(Debug, Clone, Copy, Eq, Serialize, Deserialize)]"),
           (M, "impl From<MacAddress> for u64 {", """impl PartialEq for MacAddress {
    fn eq(&self, other: &Self) -> bool {
        u64::from(self) == u64::from(other)
    }
}

impl std::hash::Hash for MacAddress {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        u64::from(self).hash(state)
    }
}

impl From<MacAddress> for u64 {""")],
    demo="""
server = Server("pica-http")
check(server.http("POST", "/create-anchor/12:34")[0] == 200, "create")
check(server.http("POST", "/create-anchor/12:34:00:00:00:00:00:00")[0] == 200, "distinct address refused")
check(len(server.state()) == 2, "state")
"""),
dict(
    id="c21-stop-at-invalid", property="C21",
    needs="A device configuration with a writable parameter after a read-only one.",
    breaks="The parameters after the first refused one are not applied.",
    edits=[(D, """                        status: uci::Status::ReadOnly,
                    })
""", """                        status: uci::Status::ReadOnly,
                    });
                    break;
""")],
    demo="""
server = Server()
host = server.host()
check(host.command(0, 4, b"\\2\\0\\1\\1\\1\\1\\0").payload == b"\\4\\1\\0\\x09", "set config")
check(host.command(0, 5, b"\\1\\1").payload == bytes([0, 1, 1, 1, 0]), "not applied")
"""),
dict(
    id="c22-partial-write", property="C22",
    needs="A host that does not read for a while, so that the socket takes only a part of a packet.",
    breaks="The rest of the packet is lost, and the stream of packets is corrupted.",
    edits=[(K, "        socket.write_all(&packet).await?;", "        socket.write(&packet).await?;")],
    demo="""
server = Server()
host = server.host()
expected = host.command(0, 3).payload
N = 400000
received = 0
def sender():
    for _ in range(N // 100):
        host.socket.sendall(control(0, 3) * 100)
thread = threading.Thread(target=sender, daemon=True)
host.socket.settimeout(None)
thread.start()
time.sleep(3)
while received < N:
    packet = host.next(5.0)
    check(packet is not None, "%d of %d responses" % (received, N))
    check((packet.mt, packet.gid, packet.oid) == (2, 0, 3) and packet.payload == expected, "corrupted stream")
    received += 1
"""),
dict(
    id="c22-partial-read", property="C22",
    needs="A packet whose payload arrives in two parts.",
    breaks="The packet is cut, and its remainder taken as the next packet.",
    edits=[(K, "        socket.read_exact(&mut packet[HEADER_SIZE..]).await.ok()?;", "        if payload_length > 0 && socket.read(&mut packet[HEADER_SIZE..]).await.ok()? == 0 {\n            return None;\n        }")],
    demo="""
server = Server()
host = server.host()
packet = control(1, 0, u32(5) + b"\\0")
for cut in range(1, len(packet)):
    packet = control(1, 0, u32(cut) + b"\\0")
    host.send(packet[:cut])
    time.sleep(0.1)
    host.send(packet[cut:])
    check(host.response(1, 0).payload == b"\\0", "init")
    host.drain(0.05)
    check(host.state(cut) == (0, 0), "session")
"""),
dict(
    id="c23-over-read", property="C23",
    needs="A chunk boundary inside a packet.",
    breaks="The reader takes bytes of the next packet.",
    edits=[(PY, "chunk = await self.reader.read(expected_len - len(received))", "chunk = await self.reader.read(expected_len)")],
    demo_sh="""#!/bin/bash
PYTHONPATH="$PWD/py/pica" exec timeout 60 python3 -B "$(dirname "$0")/host_demo.py"
""",
    files={"host_demo.py": """import asyncio
import sys

from pica import Host


class Writer:
    def close(self):
        pass


async def main():
    packets = [bytes([0x61, 2, 0, n]) + bytes(range(n)) for n in range(1, 20)]
    stream = b"".join(packets)
    for size in range(1, 30):
        reader = asyncio.StreamReader()
        host = Host(reader, Writer(), bytes(2))
        for p in range(0, len(stream), size):
            reader.feed_data(stream[p : p + size])
            for _ in range(50):
                await asyncio.sleep(0)
        got = []
        while not host.control_queue.empty():
            got.append(host.control_queue.get_nowait())
        if got != packets:
            print("DEMO: property broken with chunks of", size)
            sys.exit(1)
        host.disconnect()


asyncio.run(main())
"""}, demo=""),
]
