D, L, S, A = "src/device.rs", "src/lib.rs", "src/session.rs", "src/app_config.rs"
H, P, M, K = "src/bin/http-server/main.rs", "src/bin/http-server/position.rs", "src/mac_address.rs", "src/packets.rs"

SPECS = [
dict(
    id="c01-aoa-bound-length", property="C01",
    needs="A configuration with an AOA_BOUND_CONFIG value of an even length other than 8 bytes.",
    breaks="The server panics on the malformed value and stops serving all the hosts.",
    edits=[(A, """                self.aoa_bound_config = [
                    u16::from_le_bytes([value[0], value[1]]),
                    u16::from_le_bytes([value[2], value[3]]),
                    u16::from_le_bytes([value[4], value[5]]),
                    u16::from_le_bytes([value[6], value[7]]),
                ]
""", """                self.aoa_bound_config = value
                    .chunks_exact(2)
                    .map(|bound| u16::from_le_bytes([bound[0], bound[1]]))
                    .collect::<Vec<_>>()
                    .try_into()
                    .unwrap()
"""), (A, "if value.len() != 8 {", "if value.len() % 2 != 0 {")],
    demo="""
server = Server()
bystander, host = server.host(), server.host()
check(host.init(7) == 0, "init")
for size in range(0, 20):
    payload = u32(7) + b"\\1" + tlv(0x1D, bytes(size))
    host.send(control(1, 3, payload))
    host.drain(0.05)
check(server.alive(), "the server stopped")
check(bystander.count() == 0, "count")
check(server.host().count() == 0, "count")
"""),
dict(
    id="c02-oid-mask", property="C02",
    needs="An unsupported command with an opcode of 0x20 or more.",
    breaks="The error response carries another opcode than the command.",
    edits=[(D, "let opcode_id = packet[1] & 0x3f;", "let opcode_id = packet[1] & 0x1f;")],
    demo="""
server = Server()
host = server.host()
for gid in (0, 1, 2, 12):
    for oid in range(64):
        host.send(control(gid, oid, b"\\xff"))
        packet = host.drain(0.0) or [host.receive(3)]
        packet = [p for p in packet if p is not None and p.mt == 2]
        check(len(packet) == 1, "no response")
        check((packet[0].gid, packet[0].oid) == (gid, oid), "response %r to %x %x" % (packet[0], gid, oid))
        host.drain(0.0)
"""),
dict(
    id="c03-reconfigure-active", property="C03",
    needs="A configuration command on an active session.",
    breaks="The accepted command moves the active session to IDLE.",
    edits=[(D, """                if session.state == SessionState::SessionStateInit {
                    session.set_state(
                        SessionState::SessionStateIdle,""", """                if session.state != SessionState::SessionStateIdle {
                    session.set_state(
                        SessionState::SessionStateIdle,""")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\2", [b"\\3\\4"], interval=10000)
check(host.start(5) == 0, "start")
check(host.state(5) == (0, 2), "not active")
check(host.configure(5, [(0x25, [9])]) == 0, "configuration refused")
check(host.state(5) == (0, 2), "no longer active")
check(host.stop(5) == 0, "stop refused")
"""),
dict(
    id="c04-repeated-idle", property="C04",
    needs="The removal of the last controlee of an idle session.",
    breaks="A session status notification is sent although the state does not change.",
    edits=[(S, "        if session_state == self.state {\n", "        if session_state == self.state\n            && reason_code == ReasonCode::StateChangeWithSessionManagementCommands\n        {\n")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\2", [b"\\3\\4"])
host.drain(0.3)
status, controlees = host.multicast(5, 1, [b"\\3\\4"])
check(status == 0, "removal refused")
check(host.state(5) == (0, 3), "not idle")
check(not [p for p in host.drain(0.5) if is_session_status(p)], "notification without a transition")
"""),
dict(
    id="c05-inband-stop-ready", property="C05",
    needs="An in-band stop of one session of a controlee which has another active session.",
    breaks="The controlee reports READY although a session is still active.",
    edits=[(L, "                if device.n_active_sessions == 0 {", "                if device.n_active_sessions <= 1 {")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2", b"\\3\\3"], interval=10000)
b.setup(5, False, b"\\2\\2", [b"\\1\\1"], interval=10000)
b.setup(6, False, b"\\2\\2", [b"\\1\\1"], interval=10000)
for host, session in ((a, 5), (b, 5), (b, 6)):
    check(host.start(session) == 0, "start")
b.drain(0.3)
check(a.multicast(5, 1, [b"\\2\\2"])[0] == 0, "removal refused")
packets = b.drain(0.6)
check([p for p in packets if is_session_status(p)], "not stopped")
check(not [p for p in packets if is_device_status(p)], "device status notification")
check(b.device_state() == 2, "device not active")
"""),
dict(
    id="c06-partial-config", property="C06",
    needs="A configuration command with a valid parameter and an invalid one.",
    breaks="The refused command changes the configuration of the session.",
    edits=[(D, "let mut app_config = session.app_config.clone();", "let app_config = &mut session.app_config;"),
           (D, "                session.app_config = app_config;\n", "")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2"], interval=10000)
check(host.start(5) == 0, "start")
before = host.configuration(5, 0x25, 0x04)
check(host.configure(5, [(0x25, [77]), (0x04, [200])]) == 4, "accepted")
check(host.configuration(5, 0x25, 0x04) == before, "changed by a refused command")
"""),
dict(
    id="c06-immutable-first", property="C06",
    needs="AOA_RESULT_REQ as second or later parameter of a command on an active session.",
    breaks="The immutable parameter is changed while the session is active.",
    edits=[(D, "                .any(|cfg| IMMUTABLE_PARAMETERS.contains(&cfg.cfg_id))", "                .next()\n                .is_some_and(|cfg| IMMUTABLE_PARAMETERS.contains(&cfg.cfg_id))")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2"], interval=10000)
check(host.start(5) == 0, "start")
before = host.configuration(5, 0x0D)
check(host.configure(5, [(0x25, [77]), (0x0D, [0])]) == 0x13, "accepted")
check(host.configuration(5, 0x0D) == before, "changed")
"""),
dict(
    id="c07-count-disabled", property="C07",
    needs="Rounds run while the notifications are disabled, and the ranging count read afterwards.",
    breaks="Rounds without notification are counted, and the sequence numbers skip.",
    edits=[(L, """            let device = self.get_device_mut(device_handle).unwrap();
            let session = device.session_mut(session_id).unwrap();

            session.sequence_number += 1;
        }
""", "        }\n"), (L, "        session.clear_data();\n", "        session.sequence_number += 1;\n        session.clear_data();\n")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2"], interval=50, extra=[(0x0E, [0])])
check(host.start(5) == 0, "start")
host.drain(0.5)
check(host.ranging_count(5) == 0, "rounds counted without notification")
check(host.configure(5, [(0x0E, [1])]) == 0, "enable")
infos = [p for p in host.drain(0.5) if is_info(p)]
check(infos and sequence(infos[0]) == 0, "sequence number")
"""),
dict(
    id="c07-ntf-triggers", property="C07",
    needs="A session whose notifications are enabled with a trigger (SESSION_INFO_NTF_CONFIG 2 to 7).",
    breaks="No session info notification is sent.",
    edits=[(S, "self.app_config.session_info_ntf_config != uci::SessionInfoNtfConfig::Disable", "self.app_config.session_info_ntf_config == uci::SessionInfoNtfConfig::Enable")],
    demo="""
server = Server()
host = server.host()
for value in range(1, 8):
    host.setup(value, True, b"\\1\\1", [b"\\2\\2"], interval=50, extra=[(0x0E, [value])])
    check(host.start(value) == 0, "start")
packets = host.drain(0.6)
for value in range(1, 8):
    check([p for p in packets if is_info(p) and p.payload[4] == value], "no notification with %d" % value)
"""),
dict(
    id="c08-same-role", property="C08",
    needs="Two devices listing each other, of different types, with the same role.",
    breaks="Devices of the same role measure each other.",
    edits=[(A, "        self.device_role != peer_config.device_role\n            && self.device_type", "        self.device_type")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2"], interval=50, role=1)
b.setup(5, False, b"\\2\\2", [b"\\1\\1"], interval=50, role=1)
check(a.start(5) == 0 and b.start(5) == 0, "start")
a.drain(0.2)
infos = [p for p in a.drain(0.5) if is_info(p)]
check(infos, "no notification")
check(all(measurements(p) == [] for p in infos), "measured a device of the same role")
"""),
dict(
    id="c09-duplicates-in-command", property="C09",
    needs="One update adding the same controlee twice.",
    breaks="The controlee is listed twice, and reported as added twice.",
    edits=[(D, "if !dst_addresses.contains(&controlee.short_address) {", "if !session\n                            .app_config\n                            .dst_mac_address\n                            .contains(&controlee.short_address)\n                        {")],
    demo="""
server = Server()
host = server.host()
host.setup(5, True, b"\\1\\1", [b"\\2\\2"])
status, controlees = host.multicast(5, 0, [b"\\3\\3", b"\\3\\3"])
check([s for _, s in controlees] == [0, 8], "duplicate accepted")
check(host.configuration(5, 7)[1][7] == b"\\2\\2\\3\\3", "list")
"""),
dict(
    id="c10-stop-first-only", property="C10",
    needs="Two devices whose sessions use the removed address.",
    breaks="Only one of the sessions is stopped.",
    edits=[(L, """        for device in self.devices.values_mut() {
            let Some(session) = device.session_mut(session_id) else {
                continue;
            };

            if session.app_config.device_mac_address != Some(*mac_address) {
                continue;
            }

            if session.session_state() == SessionState::SessionStateActive {
                session.stop""", """        if let Some(device) = self.devices.values_mut().find(|device| {
            device.session(session_id).map_or(false, |session| {
                session.app_config.device_mac_address == Some(*mac_address)
            })
        }) {
            let Some(session) = device.session_mut(session_id) else {
                return;
            };

            if session.session_state() == SessionState::SessionStateActive {
                session.stop""")],
    demo="""
server = Server()
a, b, c = server.host(), server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2", b"\\3\\3"], interval=10000, extra=[(0x2F, [1])])
for host in (b, c):
    host.setup(5, False, b"\\2\\2", [b"\\1\\1"], interval=10000)
for host in (a, b, c):
    check(host.start(5) == 0, "start")
check(a.multicast(5, 1, [b"\\2\\2"])[0] == 0, "removal refused")
time.sleep(0.3)
check(b.state(5) == (0, 3) and c.state(5) == (0, 3), "still active")
"""),
dict(
    id="c11-data-when-disabled", property="C11",
    needs="Data sent on a session with the session info notifications disabled, and several rounds.",
    breaks="The same data is delivered again in every round.",
    edits=[(L, """        // TODO: Clean the data only when all the data is transfered
        let device = self.get_device_mut(device_handle).unwrap();
        let session = device.session_mut(session_id).unwrap();

        session.clear_data();
""", ""), (L, "            session.sequence_number += 1;\n", "            session.sequence_number += 1;\n\n            // TODO: Clean the data only when all the data is transfered\n            session.clear_data();\n")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2"], kind=1, interval=100, extra=[(0x0E, [0])])
b.setup(5, False, b"\\2\\2", [b"\\1\\1"], kind=1, interval=10000)
check(a.start(5) == 0 and b.start(5) == 0, "start")
a.data(5, b"hello")
packets = [p for p in b.drain(1.0) if is_data(p)]
check(len(packets) == 1, "delivered %d times" % len(packets))
"""),
dict(
    id="c12-exact-multiple", property="C12",
    needs="A packet whose payload is an exact multiple of the maximum segment payload.",
    breaks="The last segment is marked as not complete.",
    edits=[(L, """                let remaining_length = complete_packet.len() - offset;
                let fragment_length = std::cmp::min(
                    remaining_length,
                    if mt == MessageType::Data {
                        MAX_DATA_PACKET_PAYLOAD_SIZE
                    } else {
                        MAX_CTRL_PACKET_PAYLOAD_SIZE
                    },
                );
                let pbf = if fragment_length == remaining_length {""", """                let remaining_length = complete_packet.len() - offset;
                let max_length = if mt == MessageType::Data {
                    MAX_DATA_PACKET_PAYLOAD_SIZE
                } else {
                    MAX_CTRL_PACKET_PAYLOAD_SIZE
                };
                let fragment_length = std::cmp::min(remaining_length, max_length);
                let pbf = if remaining_length < max_length {""")],
    demo="""
server = Server()
a, b = server.host(), server.host()
a.setup(5, True, b"\\1\\1", [b"\\2\\2"], kind=1, interval=100)
b.setup(5, False, b"\\2\\2", [b"\\1\\1"], kind=1, interval=10000)
check(a.start(5) == 0 and b.start(5) == 0, "start")
b.drain(0.2)
for size in (1006, 1007, 1008):  # the data packet has 17 more bytes of payload
    a.data(5, bytes(size))
    time.sleep(0.3)
segments = []
while True:
    s = b.segment(0.3)
    if s is None:
        break
    if s[0] >> 5 == 0:
        segments.append((s[0] >> 4 & 1, len(s) - 4))
check(segments == [(0, 1023), (0, 1024), (1, 1024), (0, 1)], "segments %r" % segments)
"""),
dict(
    id="c13-reset-keeps-config", property="C13",
    needs="A device configuration changed from its default, and a device reset.",
    breaks="The device configuration survives the reset.",
    edits=[(D, """        let reset_config = cmd.reset_config;
""", """        let reset_config = cmd.reset_config;
        let low_power_mode = self.config.low_power_mode;
"""), (D, """        self.is_reset = true;
        self.init();
""", """        (self.is_reset, self.config.low_power_mode) = (true, low_power_mode);
        self.init();
""")],
    demo="""
server = Server()
host = server.host()
check(host.command(0, 4, b"\\1\\1\\1\\0").payload[0] == 0, "set config")
check(host.command(0, 5, b"\\1\\1").payload == bytes([0, 1, 1, 1, 0]), "read back")
check(host.command(0, 0, b"\\0").payload == b"\\0", "reset")
check(host.command(0, 5, b"\\1\\1").payload == bytes([0, 1, 1, 1, 1]), "not the default")
"""),
]
