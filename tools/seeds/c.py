D, L, S, A = "src/device.rs", "src/lib.rs", "src/session.rs", "src/app_config.rs"
H, P, M, K = "src/bin/http-server/main.rs", "src/bin/http-server/position.rs", "src/mac_address.rs", "src/packets.rs"
G, PY = "src/pcapng.rs", "py/pica/pica/__init__.py"

SPECS = [
dict(
    id="c01-empty-value", property="C01",
    needs="A device configuration whose low power mode has an empty value.",
    breaks="The server stops.",
    edits=[(D, "parameter.value.first().copied().unwrap_or(1) != 0", "parameter.value[0] != 0")],
    demo="""
server = Server()
host, other = server.host(), server.host()
host.send(control(0, 4, b"\\1\\1\\0"))
time.sleep(0.3)
check(other.count() == 0, "not served")
server.host()
"""),
dict(
    id="c02-unknown-group-opcode", property="C02",
    needs="A command of a group without commands, with an opcode other than zero.",
    breaks="The response does not carry the opcode of the command.",
    edits=[(D, """                    payload: vec![
                        cmd.payload[0],
                        cmd.payload[1],
                        0x1,""", """                    payload: vec![
                        cmd.payload[0] & 0x1f,
                        cmd.payload[1],
                        0x1,""")],
    demo="""
server = Server()
host = server.host()
for oid in range(64):
    host.send(control(3, oid))
    r = host.receive()
    check((r.mt, r.gid, r.oid, r.payload) == (2, 3, oid, b"\\x07"), "response %r" % r)
"""),
dict(
    id="c03-session-limit", property="C03",
    needs="256 sessions of one device.",
    breaks="More than 255 sessions exist, and the session count reads zero.",
    edits=[(D, "self.sessions.len() >= MAX_SESSION", "self.sessions.len() > MAX_SESSION")],
    demo="""
server = Server()
host = server.host()
status = [host.init(i) for i in range(256)]
check(status[:255] == [0] * 255, "init")
check(status[255] != 0, "too many sessions")
check(host.count() == 255, "count")
"""),
dict(
    id="c04-reason-kept", property="C04",
    needs="A session stopped in-band.",
    breaks="The notification of an in-band stop gives the reason of a stop by the host.",
    edits=[(L, "                    ReasonCode::SessionStoppedDueToInbandSignal,", "                    ReasonCode::StateChangeWithSessionManagementCommands,")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2"], interval=10000)
b.setup(5, False, b"\\2\\2", [b"\\1\\1"], interval=10000)
check(a.start(5) == 0 and b.start(5) == 0, "start")
b.drain(0.2)
a.multicast(5, 1, [b"\\2\\2"])
ntfs = [p.payload for p in b.drain(0.5) if is_session_status(p)]
check(len(ntfs) == 1 and ntfs[0][:5] == u32(5) + b"\\3" and ntfs[0][5] != 0, "%r" % ntfs)
"""),
dict(
    id="c05-two-sessions", property="C05",
    needs="Two active sessions, and the stop of one of them.",
    breaks="The device reports ready while a session is active.",
    edits=[(D, """        self.n_active_sessions -= 1;
        if self.n_active_sessions == 0 {
            self.set_state(DeviceState::DeviceStateReady);
        }

        SessionStopRsp {""", """        self.n_active_sessions -= 1;
        if self.n_active_sessions <= 1 {
            self.set_state(DeviceState::DeviceStateReady);
        }

        SessionStopRsp {""")],
    demo="""
server = Server()
host = server.host()
for i in (1, 2):
    host.setup(i, True, b"\\1\\1", [b"\\2\\2"], interval=10000)
    check(host.start(i) == 0, "start")
check(host.stop(1) == 0, "stop")
check(host.device_state() == 2, "state")
check(host.stop(2) == 0, "stop")
check(host.device_state() == 1, "state")
"""),
dict(
    id="c06-initiation-time", property="C06",
    needs="An initiation time of four bytes, with the highest bit set.",
    breaks="The value read back is not the value set.",
    edits=[(A, "4 => try_parse_u32(value)? as u64,", "4 => try_parse_u32(value)? as i32 as u64,")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2"], extra=[(0x2B, b"\\0\\0\\0\\x80")])
status, values = host.configuration(5, 0x2B)
check(status == 0 and values[0x2B] == b"\\0\\0\\0\\x80\\0\\0\\0\\0", "%r" % values)
"""),
dict(
    id="c07-count-restart", property="C07",
    needs="A session that is stopped and started again after some rounds.",
    breaks="The sequence numbers start again at zero.",
    edits=[(S, "            self.ranging_task = None;\n", "            self.ranging_task = None;\n            self.sequence_number = 0;\n"), (S, "        if let Some(handle) = &self.ranging_task {\n            handle.abort();", "        if let Some(handle) = self.ranging_task.as_ref() {\n            handle.abort();")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2"], interval=50)
check(host.start(5) == 0, "start")
host.drain(0.4)
check(host.stop(5) == 0, "stop")
count = host.ranging_count(5)
check(count > 2, "no rounds")
host.drain(0.1)
check(host.start(5) == 0, "start")
infos = [sequence(p) for p in host.drain(0.4) if is_info(p)]
check(infos and infos[0] == count, "%d, then %r" % (count, infos))
"""),
dict(
    id="c08-one-way-list", property="C08",
    needs="A device that does not list a device which lists it.",
    breaks="A device is measured although it does not list the measuring one.",
    edits=[(A, """            && peer_config
                .dst_mac_address
                .contains(&self.device_mac_address.unwrap())
            && self
                .dst_mac_address
                .contains(&peer_config.device_mac_address.unwrap())""", """            && peer_config
                .dst_mac_address
                .contains(&self.device_mac_address.unwrap())""")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2"], interval=50)
b.setup(5, False, b"\\2\\2", [b"\\3\\3"], interval=10000)
check(a.start(5) == 0 and b.start(5) == 0, "start")
a.drain(0.2)
infos = [p for p in a.drain(0.5) if is_info(p)]
check(infos and all(measurements(p) == [] for p in infos), "measured")
"""),
dict(
    id="c09-removal-order", property="C09",
    needs="The removal of a controlee other than the last two of the list.",
    breaks="The order of the remaining controlees changes.",
    edits=[(D, "dst_addresses.retain(|value| *value != address);", "while let Some(index) = dst_addresses.iter().position(|value| *value == address) {\n                            dst_addresses.swap_remove(index);\n                        }")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2", b"\\3\\3", b"\\4\\4", b"\\5\\5"])
host.multicast(5, 1, [b"\\2\\2"])
status, values = host.configuration(5, 7)
check(values[7] == b"\\3\\3\\4\\4\\5\\5", "%r" % values)
"""),
dict(
    id="c09-stale-count", property="C09",
    needs="A controlee list update, and a later configuration or query of the number of controlees.",
    breaks="The number of controlees does not follow the list.",
    edits=[(D, "        session.app_config.number_of_controlees = dst_addresses.len() as u8;\n", "        if action != UpdateMulticastListAction::RemoveControlee {\n            session.app_config.number_of_controlees = dst_addresses.len() as u8;\n        }\n")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2", b"\\3\\3"])
host.multicast(5, 1, [b"\\2\\2"])
status, values = host.configuration(5, 5)
check(values[5] == b"\\1", "%r" % values)
"""),
dict(
    id="c10-search-ends", property="C10",
    needs="A device without a session of this id, found before the one to stop.",
    breaks="The controlee goes on ranging.",
    edits=[(L, """            let Some(session) = device.session_mut(session_id) else {
                continue;
            };
""", """            let Some(session) = device.session_mut(session_id) else {
                break;
            };
""")],
    demo="""
server = Server()
others = [server.host() for _ in range(8)]
a, b = server.host(), server.host()
others += [server.host() for _ in range(8)]
for i in range(1, 9):
    a.setup(i, True, b"\\1\\1", [b"\\2\\2"], interval=10000)
    b.setup(i, False, b"\\2\\2", [b"\\1\\1"], interval=10000)
    check(a.start(i) == 0 and b.start(i) == 0, "start")
    a.multicast(i, 1, [b"\\2\\2"])
time.sleep(0.3)
for i in range(1, 9):
    check(b.state(i) == (0, 3), "not stopped")
"""),
dict(
    id="c10-termination-count", property="C10",
    needs="A controlee with an in-band termination attempt count of two, started again by its host in time.",
    breaks="Attempts are sent with a pause, and stop a session that was started again.",
    edits=[(D, """                                    pica_tx
                                        .send(PicaCommand::StopRanging(address, session_handle))
                                        .await
                                        .unwrap()
""", """                                    pica_tx
                                        .send(PicaCommand::StopRanging(address, session_handle))
                                        .await
                                        .unwrap();
                                    time::sleep(time::Duration::from_millis(500)).await
""")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2", b"\\3\\3"], interval=10000, extra=[(0x2F, [2])])
b.setup(5, False, b"\\2\\2", [b"\\1\\1"], interval=10000)
check(a.start(5) == 0 and b.start(5) == 0, "start")
a.multicast(5, 1, [b"\\2\\2"])
time.sleep(0.2)
check(b.state(5) == (0, 3), "not stopped")
check(b.start(5) == 0, "start")
time.sleep(1)
check(b.state(5) == (0, 2), "stopped again")
"""),
dict(
    id="c11-idle-receiver", property="C11",
    needs="Data sent while the receiver's session is not active.",
    breaks="Data is delivered to a session that is not active.",
    edits=[(D, """    pub fn can_receive_data_transfer(&self, session_id: u32) -> bool {
        match self.session(session_id) {
            Some(session) => {
                session.session_state() == SessionState::SessionStateActive
                    && session.session_type()""", """    pub fn can_receive_data_transfer(&self, session_id: u32) -> bool {
        match self.session(session_id) {
            Some(session) => {
                session.session_type()"""), (D, " == SessionType::FiraRangingAndInBandDataSession\n                    && session.app_config.can_receive", " == SessionType::FiraRangingAndInBandDataSession\n                    && session.app_config.can_receive")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2"], kind=1, interval=100)
b.setup(5, False, b"\\2\\2", [b"\\1\\1"], kind=1, interval=10000)
check(a.start(5) == 0, "start")
a.data(5, b"hello")
check(not [p for p in b.drain(0.6) if is_data(p)], "delivered")
"""),
dict(
    id="c14-address-wraps", property="C14",
    needs="An address of a device derived from a handle that is also an anchor created before it.",
    breaks="A device gets the address of an anchor.",
    edits=[(L, "        if self.anchors.contains_key(mac_address) {\n            Some(Category::Anchor)", "        if self.anchors.get(mac_address).map_or(false, |anchor| anchor.handle < self.counter / 2 + 1) {\n            Some(Category::Anchor)")],
    demo="""
server = Server("pica-http")
addresses = ["00:%02X" % i for i in range(4, 8)]
for address in addresses:
    check(server.http("POST", "/create-anchor/" + address)[0] == 200, "create")
hosts = [server.host() for _ in range(8)]
state = [d["mac_address"] for d in server.state()]
check(len(set(state)) == len(state) == 12, "%r" % state)
"""),
dict(
    id="c16-captured-byte", property="C16",
    needs="A packet of more than 255 bytes.",
    breaks="The captured length of long packets is wrong.",
    edits=[(G, "        file.write(&u32::to_le_bytes(packet.len() as u32))?; // Captured Packet Length", "        file.write(&u32::to_le_bytes(packet.len() as u8 as u32))?; // Captured Packet Length")],
    demo="""
server = Server(pcapng=True)
host = server.host()
host.data(7, bytes(500))
host.drain(0.3)
trace = traces(server.scratch)["device-0.pcapng"]
check(max(len(d) for _, d in trace) == 520, "%r" % [len(d) for _, d in trace])
"""),
dict(
    id="c18-trailing-slash", property="C18",
    needs="A request with a slash at the end of the path.",
    breaks="An unknown path is served.",
    edits=[(H, "        .trim_start_matches('/')\n", "        .trim_matches('/')\n")],
    demo="""
server = Server("pica-http")
check(server.http("GET", "/get-state")[0] == 200, "state")
check(server.http("GET", "/get-state/")[0] == 404, "trailing slash")
check(server.http("POST", "/create-anchor/AA:AA/")[0] == 404, "trailing slash")
check(server.state() == [], "created")
"""),
dict(
    id="c18-default-position", property="C18",
    needs="init-uci-device without a position, for a device that was moved.",
    breaks="The device is announced at the position it had, but is at the default one.",
    edits=[(H, """                device.position = position;
                found_device = Some(device.clone());""", """                found_device = Some(device.clone());
                device.position = position;""")],
    demo="""
server = Server("pica-http")
check(server.http("POST", "/create-anchor/AA:AA")[0] == 200, "create")
check(server.http("POST", "/create-anchor/BB:BB")[0] == 200, "create")
events = server.events()
position = dict(x=100, y=0, z=0, yaw=0, pitch=0, roll=0)
check(server.http("POST", "/set-position/AA:AA", position)[0] == 200, "set")
distances = [e["distance"] for n, e in events.read() if n == "neighbor-updated"]
check(distances == [100, 100], "%r" % distances)
"""),
dict(
    id="c19-distance-rounded", property="C19",
    needs="Two devices whose distance has a fraction of at least one half.",
    breaks="The distance is rounded up.",
    edits=[(P, "f32::min(distance, u16::MAX as f32) as u16,", "f32::min(distance.round(), u16::MAX as f32) as u16,")],
    demo="""
server = Server("pica-http")
zero = dict(x=0, y=0, z=0, yaw=0, pitch=0, roll=0)
check(server.http("POST", "/create-anchor/AA:AA", zero)[0] == 200, "create")
check(server.http("POST", "/create-anchor/BB:BB", dict(zero, x=1, y=1, z=1))[0] == 200, "create")
events = server.events()
check(server.http("POST", "/set-position/AA:AA", zero)[0] == 200, "set")
distances = [e["distance"] for n, e in events.read() if n == "neighbor-updated"]
check(distances == [1, 1], "%r" % distances)
"""),
dict(
    id="c20-leading-zero", property="C20",
    needs="An address with a byte below 16.",
    breaks="The address is printed without the leading zero, and does not parse back.",
    edits=[(M, 'format!("{:02X}:", byte)', 'format!("{:2X}:", byte).replace(\' \', if *byte == 0 { "0" } else { "" })')],
    demo="""
server = Server("pica-http")
check(server.http("POST", "/create-anchor/0A:01")[0] == 200, "create")
check(server.state()[0]["mac_address"] == "0A:01", "%r" % server.state())
"""),
dict(
    id="c21-valid-with-invalid", property="C21",
    needs="A device configuration query for known and unknown parameters.",
    breaks="The response contains values although parameters are unknown.",
    edits=[(D, """            CoreGetConfigRsp {
                status: uci::Status::InvalidParam,
                parameters: invalid_parameters,
            }""", """            CoreGetConfigRsp {
                status: uci::Status::InvalidParam,
                parameters: [valid_parameters, invalid_parameters].concat(),
            }""")],
    demo="""
server = Server()
host = server.host()
r = host.command(0, 5, b"\\3\\0\\x55\\1").payload
check(r == b"\\4\\1\\x55\\0", "%r" % r)
"""),
]
