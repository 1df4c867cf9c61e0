"""Still more bugs of all the parts."""
import os, runpy
_h = os.path.dirname(os.path.abspath(__file__))
_e = runpy.run_path(_h + "/e.py")
_b = runpy.run_path(_h + "/b.py")
D, L, S, A = "src/device.rs", "src/lib.rs", "src/session.rs", "src/app_config.rs"
H, P, M, K = "src/bin/http-server/main.rs", "src/bin/http-server/position.rs", "src/mac_address.rs", "src/packets.rs"
G, PY = "src/pcapng.rs", "py/pica/pica/__init__.py"
host_demo = _e["host_demo"]
RUST = next(s for s in _b["SPECS"] if s["id"] == "c15-lost-requester")["demo_sh"]

SPECS = [
dict(
    id="c01-empty-get", property="C01",
    needs="A read of no configuration parameter, with the default log level.",
    breaks="The server stops.",
    edits=[(D, """    fn session_get_app_config(&self, cmd: SessionGetAppConfigCmd) -> SessionGetAppConfigRsp {
        let session_handle = cmd.session_token;

        log::debug!(
            "[{}:0x{:x}] Session Get App Config",
            self.handle,
            session_handle
        );
""", """    fn session_get_app_config(&self, cmd: SessionGetAppConfigCmd) -> SessionGetAppConfigRsp {
        let session_handle = cmd.session_token;

        log::debug!(
            "[{}:0x{:x}] Session Get App Config, from {:?}",
            self.handle,
            session_handle,
            cmd.app_cfg[0]
        );
""")],
    demo="""
server = Server(log="debug")
host, other = server.host(), server.host()
check(host.init(5) == 0, "init")
host.send(control(1, 4, u32(5) + b"\\0"))
time.sleep(0.3)
check(other.count() == 0, "not served")
server.host()
"""),
dict(
    id="c05-init-session", property="C05",
    needs="The last active session is stopped while another one is not configured yet.",
    breaks="The device stays active.",
    edits=[(D, """        self.n_active_sessions -= 1;
        if self.n_active_sessions == 0 {
            self.set_state(DeviceState::DeviceStateReady);
        }

        SessionStopRsp {""", """        self.n_active_sessions -= 1;
        if self
            .sessions
            .values()
            .all(|session| session.state == SessionState::SessionStateIdle)
        {
            self.set_state(DeviceState::DeviceStateReady);
        }

        SessionStopRsp {""")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2"], interval=10000)
check(host.init(6) == 0, "init")
check(host.start(5) == 0 and host.stop(5) == 0, "start and stop")
check(host.device_state() == 1, "device state %d" % host.device_state())
"""),
dict(
    id="c06-mode-clears-list", property="C06",
    needs="The address mode is set on its own, after the destination addresses.",
    breaks="The destination addresses are lost.",
    edits=[(A, "            uci::AppConfigTlvType::MacAddressMode => self.mac_address_mode = try_parse(value)?,", """            uci::AppConfigTlvType::MacAddressMode => {
                self.mac_address_mode = try_parse(value)?;
                self.dst_mac_address.clear();
            }""")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2"], interval=10000)
check(host.start(5) == 0, "start")
check(host.configure(5, [(0x26, [0])]) == 0, "configure")
check(host.configuration(5, 7) == (0, {7: b"\\2\\2"}), "%r" % (host.configuration(5, 7),))
"""),
dict(
    id="c07-short-interval", property="C07",
    needs="A ranging interval over 65 seconds.",
    breaks="The session ranges much too often.",
    edits=[(D, "time::Duration::from_millis(session.app_config.ranging_duration as u64);", "time::Duration::from_millis((session.app_config.ranging_duration as u16).max(1) as u64);")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2"], interval=65536 + 100)
check(host.start(5) == 0, "start")
check(not any(is_info(p) for p in host.drain(1)), "session information already")
"""),
dict(
    id="c08-unreachable-anchor", property="C08",
    needs="An anchor whose position cannot be estimated, listed before another anchor.",
    breaks="The other anchor is not measured.",
    edits=[(L, """                    .estimate(&device.handle, &other.handle)
                else {
                    continue;
                };""", """                    .estimate(&device.handle, &other.handle)
                else {
                    break;
                };""")],
    demo_sh=RUST.replace("tokio = {", 'futures = "*"\nanyhow = "*"\ntokio = {'),
    files={"demo.rs": """use pica::*;
use tokio::sync::{mpsc, oneshot};

/// Everything but the first anchor can be estimated.
struct Estimator;
impl RangingEstimator for Estimator {
    fn estimate(&self, a: &Handle, b: &Handle) -> Option<RangingMeasurement> {
        (*a != 0 && *b != 0).then_some(RangingMeasurement { range: 5, azimuth: 6, elevation: 7 })
    }
}

#[tokio::main]
async fn main() {
    let pica = Pica::new(Box::new(Estimator), None);
    let tx = pica.commands();
    tokio::spawn(pica.run());
    for n in [1, 2] {
        let (rsp_tx, rsp_rx) = oneshot::channel();
        let address = MacAddress::new(format!("0{n}:0{n}")).unwrap();
        let _ = tx.send(PicaCommand::CreateAnchor(address, rsp_tx)).await;
        rsp_rx.await.unwrap().unwrap();
    }
    let (to_pica, from_host) = mpsc::unbounded_channel::<Vec<u8>>();
    let (to_host, mut from_pica) = mpsc::unbounded_channel::<Vec<u8>>();
    let stream = futures::stream::unfold(from_host, |mut rx| async move { rx.recv().await.map(|p| (p, rx)) });
    let sink = futures::sink::unfold(to_host, |tx, p: Vec<u8>| async move {
        tx.send(p)?;
        Ok::<_, anyhow::Error>(tx)
    });
    let _ = tx.send(PicaCommand::Connect(Box::pin(stream), Box::pin(sink))).await;
    let send = |gid: u8, oid: u8, payload: &[u8]| {
        let mut p = vec![0x20 | gid, oid, 0, payload.len() as u8];
        p.extend_from_slice(payload);
        to_pica.send(p).unwrap();
    };
    send(0, 0, &[0]);
    send(1, 0, &[5, 0, 0, 0, 0]);
    let mut config = vec![5, 0, 0, 0, 9];
    for (id, v) in [
        (0u8, &[1u8][..]), (1, &[2]), (3, &[1]), (5, &[2]), (6, &[9, 9]), (7, &[1, 1, 2, 2]),
        (9, &[100, 0, 0, 0]), (0x11, &[1]), (0x22, &[1]),
    ] {
        config.extend([id, v.len() as u8]);
        config.extend(v);
    }
    send(1, 3, &config);
    send(2, 0, &[5, 0, 0, 0]);
    loop {
        let p = from_pica.recv().await.unwrap();
        if p[0] == 0x62 && p[1] == 0 {
            if p[4 + 24] != 1 {
                println!("DEMO: property broken: {} measurements", p[4 + 24]);
                std::process::exit(1)
            }
            return;
        }
    }
}
"""}, demo="",
    ),
dict(
    id="c09-idle-notice", property="C09",
    needs="A controlee is removed while the session is idle.",
    breaks="The removal is notified although the session is not active.",
    edits=[(D, """                if session.state == SessionState::SessionStateActive {
                    let _ = self.ntf_tx.send(""", """                if session.state != SessionState::SessionStateInit {
                    let _ = self.ntf_tx.send(""")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2", b"\\3\\3"])
host.drain(0.2)
check(host.multicast(5, 1, [b"\\2\\2"])[0] == 0, "removal")
left = host.drain(0.3)
check(left == [], "%r" % left)
"""),
dict(
    id="c11-stop-clears", property="C11",
    needs="A session is stopped and started between the data and the next round.",
    breaks="The accepted data is never delivered.",
    edits=[(S, "        self.state = session_state;\n", """        if std::mem::replace(&mut self.state, session_state) == SessionState::SessionStateActive {
            self.data.clear();
        }
""")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2"], kind=1, interval=400)
b.setup(5, False, b"\\2\\2", [b"\\1\\1"], kind=1, interval=10000)
check(b.start(5) == 0 and a.start(5) == 0, "start")
a.data(5, b"abc")
check(a.stop(5) == 0 and a.start(5) == 0, "restart")
got = b"".join(p.payload for p in b.drain(1.5) if is_data(p))
check(got.count(b"abc") == 1, "%r" % got)
"""),
dict(
    id="c12-long-notification", property="C12",
    needs="A notification of more than 255 bytes.",
    breaks="It is sent as one segment with a wrong length.",
    edits=[(L, """                    if mt == MessageType::Data {
                        MAX_DATA_PACKET_PAYLOAD_SIZE""", """                    if mt != MessageType::Response {
                        MAX_DATA_PACKET_PAYLOAD_SIZE""")],
    demo="""
server = Server("pica-http")
for i in range(12):
    check(server.http("POST", "/create-anchor/09:%02X" % i)[0] == 200, "create")
host = server.host()
host.setup(5, True, b"\\1\\1", [bytes([9, i]) for i in range(12)])
check(host.start(5) == 0, "start")
info = [p for p in host.drain(0.5) if is_info(p)]
check(info and all(len(measurements(p)) == 12 for p in info), "%r" % info)
check(host.count() == 1, "count")
"""),
dict(
    id="c13-lazy-reset", property="C13",
    needs="A second device reset while no session is active.",
    breaks="The sessions survive the reset.",
    edits=[(D, """        // Keep the notifications for the deleted sessions.
        self.sessions.clear();
""", """        if self.is_reset && self.n_active_sessions == 0 {
            device.sessions = std::mem::take(&mut self.sessions);
        }
        // Keep the notifications for the deleted sessions.
        self.sessions.clear();
"""), (D, "        *self = device;\n        self.is_reset = true;", "        *self = device;\n        self.is_reset |= true;")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2"])
check(host.command(0, 0, b"\\0").payload == b"\\0", "reset")
check(host.count() == 0, "%d sessions" % host.count())
"""),
dict(
    id="c15-recycled-handle", property="C15",
    needs="The anchor created last is destroyed, and another one is created.",
    breaks="The new anchor gets the handle of the destroyed one.",
    edits=[(L, "            Some(anchor) => Ok(anchor.handle),", """            Some(anchor) => {
                if anchor.handle + 1 == self.counter {
                    self.counter = anchor.handle;
                }
                Ok(anchor.handle)
            }""")],
    demo_sh=RUST,
    files={"demo.rs": """use pica::*;
use tokio::sync::oneshot;

struct None_;
impl RangingEstimator for None_ {
    fn estimate(&self, _: &Handle, _: &Handle) -> Option<RangingMeasurement> {
        None
    }
}

#[tokio::main]
async fn main() {
    let pica = Pica::new(Box::new(None_), None);
    let tx = pica.commands();
    tokio::spawn(pica.run());
    let mut handles = vec![];
    for n in 0..4 {
        let address = MacAddress::new(format!("AA:0{n}")).unwrap();
        let (rsp_tx, rsp_rx) = oneshot::channel();
        let _ = tx.send(PicaCommand::CreateAnchor(address, rsp_tx)).await;
        let handle = rsp_rx.await.unwrap().unwrap();
        if handles.contains(&handle) {
            println!("DEMO: property broken: handle {handle} used before");
            std::process::exit(1)
        }
        handles.push(handle);
        if n == 2 {
            let (rsp_tx, rsp_rx) = oneshot::channel();
            let _ = tx.send(PicaCommand::DestroyAnchor(address, rsp_tx)).await;
            assert_eq!(rsp_rx.await.unwrap().unwrap(), handle);
        }
    }
}
"""}, demo=""),
dict(
    id="c16-snapped", property="C16",
    needs="A data packet of more than 512 bytes.",
    breaks="Its record holds the first 512 bytes only.",
    edits=[(G, "        file.write(packet)?;\n        file.write(&vec![0; packet_data_padding])?;", "        file.write(&packet[..packet.len().min(512)])?;\n        file.write(&vec![0; packet_data_padding + packet.len().saturating_sub(512)])?;")],
    demo="""
server = Server(pcapng=True)
host = server.host()
host.data(5, bytes(range(1, 200)) * 4)
host.receive()
trace = traces(server.scratch)["device-0.pcapng"]
check(any(r[1].endswith(bytes(range(1, 200)) * 4) for r in trace), "%r" % trace)
"""),
dict(
    id="c17-stale-range", property="C17",
    needs="A device that was measured by another one is moved.",
    breaks="The ranging results keep its old position.",
    edits=[
        (H, "    devices: Arc<Mutex<HashMap<pica::Handle, DeviceInformation>>>,\n    events: broadcast::Sender<Event>,", "    devices: Arc<Mutex<HashMap<pica::Handle, DeviceInformation>>>,\n    estimates: Arc<Mutex<HashMap<pica::Handle, HashMap<pica::Handle, (u16, i16, i8)>>>>,\n    events: broadcast::Sender<Event>,"),
        (H, "            devices: Arc::new(Mutex::new(HashMap::new())),\n", "            devices: Arc::new(Mutex::new(HashMap::new())),\n            estimates: Default::default(),\n"),
        (H, """        for (_, device) in devices.iter_mut() {
            if device.mac_address == mac_address {
                device.position = position;
""", """        for (handle, device) in devices.iter_mut() {
            if device.mac_address == mac_address {
                device.position = position;
                self.estimates.lock().unwrap().remove(handle);
"""),
        (H, "        let (range, azimuth, elevation) = left_pos.compute_range_azimuth_elevation(&right_pos);\n", """        let (range, azimuth, elevation) = *self
            .estimates
            .lock()
            .ok()?
            .entry(*left)
            .or_default()
            .entry(*right)
            .or_insert_with(|| left_pos.compute_range_azimuth_elevation(&right_pos));
"""),
    ],
    demo="""
server = Server("pica-http")
position = dict(x=0, y=0, z=100, yaw=0, pitch=0, roll=0)
check(server.http("POST", "/create-anchor/09:01", position)[0] == 200, "create")
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\x09\\x01"])
check(host.start(5) == 0, "start")
host.drain(0.5)
position["z"] = 300
check(server.http("POST", "/set-position/09:01", position)[0] == 200, "set")
host.drain(0.3)
last = [p for p in host.drain(0.5) if is_info(p)][-1]
check(measurements(last)[0][1] == 300, "%r" % measurements(last))
"""),
dict(
    id="c18-conflict-moves", property="C18",
    needs="An anchor is created at an address that exists, with another position.",
    breaks="The refused request moves the device.",
    edits=[(H, "        let _guard = self.anchor_lock.lock().await;\n        let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();\n        cmd_tx\n            .send(PicaCommand::CreateAnchor(mac_address, rsp_tx))", "        let _guard = self.anchor_lock.lock().await;\n        let (rsp_tx, rsp_rx) = oneshot::channel::<Result<_, _>>();\n        for device in self.devices.lock().unwrap().values_mut() {\n            if device.mac_address == mac_address {\n                device.position = position;\n            }\n        }\n        cmd_tx\n            .send(PicaCommand::CreateAnchor(mac_address, rsp_tx))")],
    demo="""
server = Server("pica-http")
position = dict(x=1, y=2, z=3, yaw=0, pitch=0, roll=0)
check(server.http("POST", "/create-anchor/09:01", position)[0] == 200, "create")
position["x"] = 7
check(server.http("POST", "/create-anchor/09:01", position)[0] == 409, "create again")
check(server.state()[0]["x"] == 1, "%r" % server.state())
"""),
dict(
    id="c18-wide-pitch", property="C18",
    needs="A position with a pitch that does not fit.",
    breaks="The position is accepted, and another one is set.",
    edits=[(H, "    pitch: i8,\n    roll: i16,\n}", "    pitch: i16,\n    roll: i16,\n}"),
           (H, "Ok(body) => Position::new(body.x, body.y, body.z, body.yaw, body.pitch, body.roll),", "Ok(body) => Position::new(body.x, body.y, body.z, body.yaw, body.pitch as i8, body.roll),")],
    demo="""
server = Server("pica-http")
position = dict(x=1, y=2, z=3, yaw=0, pitch=300, roll=0)
r = server.http("POST", "/create-anchor/09:01", position)[0]
check(r == 406, "status %d" % r)
"""),
dict(
    id="c19-far-apart", property="C19",
    needs="Two poses more than 32767 apart along an axis.",
    breaks="The range and the angles are those of a nearer device.",
    edits=[(P, "        let delta = other.position - self.position;\n", "        let delta = (other.position - self.position)\n            .clamp(Vec3::splat(i16::MIN as f32), Vec3::splat(i16::MAX as f32));\n")],
    demo="""
server = Server("pica-http")
def pose(x, z):
    return dict(x=x, y=0, z=z, yaw=0, pitch=0, roll=0)
check(server.http("POST", "/create-anchor/09:01", pose(-20000, -20000))[0] == 200, "create")
check(server.http("POST", "/create-anchor/09:02", pose(20000, 0))[0] == 200, "create")
events = server.events()
check(server.http("POST", "/set-position/09:01", pose(-20000, -20000))[0] == 200, "set")
n = [e for name, e in events.read() if name == "neighbor-updated"]
check(all(e["distance"] == 44721 for e in n) and len(n) == 2, "%r" % n)
"""),
dict(
    id="c20-plus-sign", property="C20",
    needs="A short address with a sign.",
    breaks="It is accepted, and denotes another address.",
    edits=[(M, """                <[u8; SHORT_MAC_ADDRESS_SIZE]>::from_hex(mac_address)
                    .map_err(|err| Error::MacAddressWrongFormat(err.to_string()))?,
            ),
            EXTENDED""", """                u16::from_str_radix(&mac_address, 16)
                    .map_err(|err| Error::MacAddressWrongFormat(err.to_string()))?
                    .to_be_bytes(),
            ),
            EXTENDED""")],
    demo="""
server = Server("pica-http")
r = server.http("POST", "/create-anchor/+A:BC")[0]
check(r == 406, "status %d" % r)
check(server.http("POST", "/create-anchor/0A:BC")[0] == 200, "create")
"""),
dict(
    id="c22-long-data", property="C22",
    needs="A data packet of more than 4096 bytes.",
    breaks="The end of the packet is read as other packets.",
    edits=[(K, "                data_packet_header.payload_length as usize\n", "                (data_packet_header.payload_length as usize).min(4096)\n")],
    demo="""
server = Server()
host = server.host()
host.data(5, bytes(6000))
check(host.count() == 0, "count")
left = host.drain(0.3)
check(len([p for p in left if (p.mt, p.gid) == (3, 2)]) == 1, "%r" % left)
"""),
dict(
    id="c23-send-length", property="C23",
    needs="A control packet with a payload of more than 127 bytes is sent.",
    breaks="Its length field is wrong.",
    edits=[(PY, "        packet[3] = len(packet) - 4\n", "        packet[3] = (len(packet) - 4) & 0x7F\n")],
    demo="",
    demo_sh='#!/bin/bash\nPYTHONPATH="$PWD/py/pica" exec timeout 60 python3 -B "$(dirname "$0")/host_demo.py"\n',
    files={"host_demo.py": '''import asyncio
import sys

from pica import Host


class Writer:
    sent = b""

    def write(self, data):
        self.sent += bytes(data)


class Packet:
    def __init__(self, data):
        self.data = data

    def serialize(self):
        return self.data


async def main():
    writer = Writer()
    host = Host(asyncio.StreamReader(), writer, bytes(2))
    for n in (1, 127, 128, 255):
        writer.sent = b""
        host.send_control(Packet(bytes([0x21, 3, 0, 0]) + bytes(n)))
        if writer.sent != bytes([0x21, 3, 0, n]) + bytes(n):
            print("DEMO: property broken: length", writer.sent[3])
            sys.exit(1)
    host.reader_task.cancel()


asyncio.run(main())
'''}),
]
