import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
T="The two Python tests run one well-formed happy path each against the real clock; "
p("C01","No host input stops the controller from serving",
 "Whatever packets, in whatever order, the connected hosts send (malformed, truncated, unsupported, reserved, or out of state) and whenever they disconnect, the controller keeps running: it still answers every later well-formed command of every connected host and still accepts new hosts. A malformed or unsupported command costs at most an error response to its sender.",
 ["inputs","histories","schedules"],"every opcode x payload length x field value up to the alphabet, after every short command history, plus every interleaving of disconnects with pending ranging rounds",
 T+"neither sends a malformed packet, an unsupported opcode, an extended address, or disconnects while ranging.",
 ["src/device.rs","src/lib.rs","src/session.rs","src/app_config.rs"],
 [("command dispatch and decode errors","src/device.rs: receive_packet, receive_command"),("ranging round for a vanished session","src/lib.rs: ranging"),("encode limits","src/lib.rs: ranging; src/device.rs")],
 observe=["packets sent to each host after the input"])
p("C02","Each command gets exactly one matching response, in order",
 "Every command packet from a host is answered on the same connection by exactly one response carrying the command's group and opcode (before the first device reset, every recognised command group other than a device reset is instead answered by one device-status notification with state error), responses come in the order of the commands, and no other host receives anything for it. A command with an unknown or unsupported group is answered with status UNKNOWN_GID, one with an unknown or unsupported opcode or a malformed payload with UNKNOWN_OID, and incoming responses and notifications are ignored.",
 ["inputs","histories","schedules"],"all 2^4 groups x 2^6 opcodes x message types x payload lengths, in reset and un-reset state, and all pipelined command sequences to the depth bound",
 T+"they use 8 of the 1024 group/opcode pairs and never pipeline.",
 ["src/device.rs","src/packets.rs","src/uci_packets.pdl"],
 [("dispatch","src/device.rs: receive_command, receive_packet"),("codec","src/uci_packets.pdl")],
 [("is_reset","first command must be a device reset","src/device.rs: Device")],["response packets"])
p("C03","Session state machine follows INIT/IDLE/ACTIVE/DEINIT rules",
 "A session is created in INIT, moves to IDLE when its configuration is first accepted, to ACTIVE only by a start command from IDLE, back to IDLE by a stop command from ACTIVE, and ceases to exist on deinit or device reset; session state and session count queries always report exactly this. Commands not allowed in the current state, or naming an unknown session, are rejected with the documented status and change nothing; initialising an id that already exists is refused as duplicate and leaves the existing session untouched, and at most 255 sessions exist per device.",
 ["histories","inputs"],"all sequences of session commands on 2 session ids to the depth bound, and all reachable states of the two-session machine, plus the 255-session boundary",
 T+"each takes one path through the state machine once.",
 ["src/device.rs","src/session.rs"],
 [("session commands","src/device.rs: session_init, session_deinit, session_start, session_stop, session_set_app_config"),("set_state","src/session.rs")],
 [("state","session state","src/session.rs: Session"),("sessions","sessions of a device","src/device.rs: Device")],["responses; SESSION_GET_STATE; SESSION_GET_COUNT"])
p("C04","Session status notifications report every transition, once, in order",
 "For every change of a session's state its own host receives exactly one session-status notification naming that session, the new state and the reason (host command, in-band stop, or controlee list emptied), and none when the state does not change. Notifications of one session arrive in the order of the changes, and never before the response to the command that caused them, under any scheduling of the server's tasks.",
 ["schedules","histories"],"every task schedule within the deviation bound of pipelined command bursts, and all command sequences to the depth bound",
 T+"they await each notification before going on, so an ordering race cannot show.",
 ["src/session.rs","src/device.rs"],
 [("set_state notification","src/session.rs: Session::set_state"),("drop","src/session.rs: Drop for Session")],
 observe=["SESSION_STATUS_NTF on the host's connection"])
p("C05","The device is ACTIVE exactly while a session is active, and says so",
 "After its first ready notification a device reports state ACTIVE from the moment its first session becomes active until its last active session stops for whatever reason (stop, deinit, in-band stop, emptied controlee list), and READY otherwise; the device-state configuration parameter always reads back this state. Each change of state, and each device reset, produces exactly one device-status notification, in order.",
 ["histories","schedules"],"all sequences of start/stop/deinit/multicast/in-band-stop/reset over several sessions to the depth bound, and pipelined schedules",
 T+"only one session per device is ever active.",
 ["src/device.rs","src/lib.rs"],
 [("active session counting","src/device.rs: session_start, session_stop, session_deinit; src/lib.rs: stop_controlee_ranging"),("set_state","src/device.rs: Device::set_state")],
 [("n_active_sessions","number of active sessions","src/device.rs: Device")],["CORE_DEVICE_STATUS_NTF; CORE_GET_CONFIG"])
p("C06","Session configuration is validated, applied atomically and read back",
 "Every supported configuration parameter accepted by a set command reads back with the value last set, or its documented default when never set, and is independent of every other parameter and session. A set command is applied either completely or not at all: it is refused, naming exactly the offending parameters, when any value has a bad length, a value outside its enumeration or an unsupported id; it is refused when a mandatory parameter is missing, when the session is not in INIT or ACTIVE, or when it touches the AoA result request of an active session; reading any unsupported or unset parameter fails as a whole.",
 ["inputs","histories"],"every parameter id 0..255 x every value of one-byte parameters x every length near each legal length, in each session state; pairs of parameters in one command; two-step set sequences",
 "No test reads back a configuration, sends an invalid value, or sets two conflicting parameters; the id x value x state space is 10^5 and more.",
 ["src/app_config.rs","src/device.rs"],
 [("parameter parsing and serialisation","src/app_config.rs: AppConfig::set, get"),("atomic application","src/device.rs: session_set_app_config, session_get_app_config")],
 [("app_config","current parameters","src/session.rs: Session")],["SESSION_SET_APP_CONFIG_RSP, SESSION_GET_APP_CONFIG_RSP"])
p("C07","An active session ranges at its interval, and only while active",
 "While a session is active and its session-info notifications are enabled, its host receives exactly one session-info notification per ranging interval (the one configured when the session was started), the first one interval after start, with sequence numbers 0,1,2,... that continue across stop and restart; the ranging count query returns the number sent so far. No session-info notification is produced for a session that is not active, that was stopped, deinitialised or reset, or whose notifications are disabled, whatever rounds were already pending.",
 ["histories","schedules","configurations"],"intervals shorter than, equal to and longer than the step, several concurrent sessions, all start/stop/deinit/reset sequences to the depth bound, and all schedules of a pending round against the command that ends it",
 T+"one test counts three notifications of one session, and none checks silence after a stop.",
 ["src/lib.rs","src/device.rs","src/session.rs"],
 [("periodic ranging task","src/device.rs: session_start"),("abort on stop and drop","src/session.rs: stop_ranging_task, Drop"),("round","src/lib.rs: ranging")],
 [("sequence_number","rounds reported","src/session.rs: Session")],["SESSION_INFO_NTF; SESSION_GET_RANGING_COUNT"])
p("C08","A round measures exactly the matching peers, with their own values",
 "The session-info notification of a round (several with the same sequence number when there are more than 255 measurements) carries one measurement for every anchor listed in the session's destination addresses and for every other device with an active session of the same id, different role and device type, whose own address is in the destination list and which lists this session's address in turn - and none other; peers whose position cannot be estimated are left out. Each measurement carries that peer's address, the range and angles from the local to the remote device, and the remote-to-local angles as destination angles, for short and for extended addresses.",
 ["inputs","histories","configurations"],"all combinations of role, type, addresses, session id, state and estimator availability for two and three devices and two anchors; every sequence to the depth bound that changes them",
 T+"one pair of matching devices is sampled; no mismatch, anchor, third device or extended address is.",
 ["src/lib.rs","src/app_config.rs","src/device.rs"],
 [("peer selection","src/lib.rs: ranging; src/app_config.rs: is_compatible_for_ranging; src/device.rs: can_start_ranging"),("measurement record","src/lib.rs: make_measurement")],
 observe=["SESSION_INFO_NTF measurements"])
p("C09","Controlee list updates are exact, bounded and reported per controlee",
 "A controlee list update adds or removes exactly the listed controlees in order, keeps the list free of new duplicates and at no more than eight entries, and answers per controlee with ok, list full, already present, or not found, plus an overall status that is ok only if all were ok; malformed payloads and sessions that are not controller, one-to-many, idle or active are refused without effect. Removals on an active session are also reported in one notification listing the controlees actually removed, keys on a session without provisioned sub-session keys are reported not applicable and add nothing, and the resulting list and its length read back from the configuration.",
 ["inputs","histories"],"all update sequences over a small address set to the depth bound, all actions x counts 0..10 incl. repeated addresses, and every payload length",
 "No test of the baseline sends a controlee list update at all.",
 ["src/device.rs"],
 [("update","src/device.rs: session_update_controller_multicast_list")],
 [("dst_mac_address","controlee list","src/app_config.rs: AppConfig")],["SESSION_UPDATE_CONTROLLER_MULTICAST_LIST_RSP/NTF; SESSION_GET_APP_CONFIG"])
p("C10","In-band stop reaches the removed controlee's session and nothing else",
 "When a controller removes a controlee and its in-band termination attempt count is not zero, every other device whose active session of the same id uses the removed address as its own goes to IDLE with the in-band-stop reason and stops ranging, and no session with another id, another address or in another state is touched. When the list becomes empty while the session is active, the controller's own session goes to IDLE with the invalid-number-of-controlees reason, stops ranging, and can be started again.",
 ["histories","schedules","configurations"],"all removal sequences over two controlees, two session ids and attempt counts 0..3, on every schedule within the bound",
 "No test removes a controlee.",
 ["src/lib.rs","src/device.rs"],
 [("in-band stop","src/lib.rs: stop_controlee_ranging; src/device.rs: session_update_controller_multicast_list")],
 observe=["SESSION_STATUS_NTF, CORE_DEVICE_STATUS_NTF and SESSION_INFO_NTF of all hosts"])
p("C11","In-band data is delivered completely, once, in order, to active responders",
 "Application data accepted from a host for an in-band-data session is answered with a credit notification and, in the session's next ranging round as active initiator, delivered byte-exact, in submission order and exactly once to every other device whose in-band-data session of the same id is active as responder, tagged with the session and the sender's address; after that round it is never delivered again, whatever its total size. Data for an unknown session, for a session of another type, or in receive format is refused with the matching transfer-status notification and never delivered.",
 ["inputs","histories"],"all sequences of submissions (sizes around 0, 1, 1024 and 65535 boundaries), rounds, starts and stops over two and three devices to the depth bound",
 T+"one small message between two devices is sampled.",
 ["src/lib.rs","src/session.rs","src/device.rs"],
 [("queueing","src/session.rs: data_message_snd"),("delivery in the round","src/lib.rs: ranging"),("eligibility","src/device.rs: can_start_data_transfer, can_receive_data_transfer")],
 [("data","queued application data","src/session.rs: Session")],["DATA_MESSAGE_RCV, SESSION_DATA_CREDIT_NTF, SESSION_DATA_TRANSFER_STATUS_NTF"])
p("C12","Packets survive UCI segmentation and reassembly byte-exactly",
 "Whatever the sizes, a control packet received in any division into segments is processed exactly like the unsegmented packet, and every packet sent is split into segments of at most 255 (control) or 1024 (data) payload bytes whose length fields match, all but the last marked not-complete and the last complete, and whose payloads concatenate to the original message.",
 ["inputs"],"all divisions of commands into up to 3 segments including empty ones; output messages of every size from 0 to several segments incl. all boundary sizes for control and data",
 "Baseline tests only exchange packets that fit into one segment.",
 ["src/lib.rs","src/packets.rs"],
 [("reassembly","src/lib.rs: read_routine"),("segmentation","src/lib.rs: write_routine")],
 observe=["raw packets on the stream and sink of a connection"])
p("C13","Hosts and sessions are isolated from each other; reset clears only its own",
 "Commands of one host, including reset and disconnect, never change the sessions, configuration, queued data or state another host observes, except through ranging, in-band data and in-band stop; commands on one session never change another session of the same device. A device reset removes all of its own sessions with their configuration, queued data, counters and pending ranging rounds, restores the default device configuration, and leaves its identity and the other devices alone.",
 ["histories","schedules"],"all interleaved command sequences of two hosts using equal session ids to the depth bound, each followed by a full read-back of both hosts' state",
 T+"they never use one session id for unrelated purposes on two hosts or look at one host after resetting the other.",
 ["src/lib.rs","src/device.rs"],
 [("per-device state","src/device.rs: Device"),("reset","src/device.rs: core_device_reset")],
 observe=["read-back of every query command on both hosts"])
p("C14","Connections yield unique identities and exact connect/disconnect events",
 "Every accepted connection gets a handle never used before by a device or anchor and an address in use by no other live device or anchor; it is announced by one connected event and, when the connection ends for any reason, by exactly one disconnected event with the same handle and address, after which the device takes no part in ranging or data delivery. A device is announced ready to its host without any command, and ending one connection leaves all others working.",
 ["histories","schedules","fault_sequences"],"all sequences of connect, disconnect, API disconnect, stream errors and sink failures over three connections to the depth bound and their interleavings with commands, including more than 256 connections and address reuse by anchors",
 "No test disconnects a host and looks at the server afterwards.",
 ["src/lib.rs"],
 [("add_device, disconnect","src/lib.rs"),("connection task","src/lib.rs: add_device")],
 [("counter","next handle","src/lib.rs: Pica"),("devices","live devices","src/lib.rs: Pica")],["Pica::events, packets, trace files"])
p("C15","The anchor registry is consistent with creations and destructions",
 "Creating an anchor succeeds exactly when its address is used by no live anchor or device, and returns a fresh handle; destroying one succeeds exactly when it exists, and returns the handle its creation returned. From its creation until its destruction, and only then, the anchor is measured by active sessions that list its address; every request is answered, in order, whether or not earlier ones succeeded.",
 ["histories","schedules"],"all sequences of create/destroy over short and extended addresses, device connects and disconnects to the depth bound, plus requester drop-outs",
 "No test creates an anchor.",
 ["src/lib.rs"],
 [("create_anchor, destroy_anchor, get_category","src/lib.rs")],
 [("anchors","live anchors by address","src/lib.rs: Pica")],["oneshot replies; SESSION_INFO_NTF measurements"])
p("C16","Traces are valid pcapng and hold exactly the packets exchanged",
 "When tracing is on, each connection's trace file is at all times a well-formed pcapng file (section header, one UCI interface, enhanced packet blocks with correct lengths and padding) whose packet records are exactly the segments exchanged with that host so far, complete, unmodified and in order per direction, with non-decreasing timestamps. A trace that cannot be created or written never costs the host its connection bookkeeping.",
 ["inputs","histories","fault_sequences"],"packets of every length from 4 to beyond one segment in both directions, all short command histories, disconnect at any point, an unusable trace directory",
 "No test opens a trace file.",
 ["src/pcapng.rs","src/lib.rs"],
 [("File::create, File::write","src/pcapng.rs"),("recording","src/lib.rs: read_routine, write_routine, add_device")],
 observe=["device-N.pcapng files"])
p("C17","The HTTP scene equals the live devices and anchors, once quiescent",
 "Once pending requests and connection events are handled, the state query lists exactly the connected UCI devices and live anchors, each once, with its category, address and the last position set for it (default position for a fresh device), and the ranging results follow these positions. This holds for every interleaving of concurrent create, destroy, set-position and state requests with connects and disconnects, with or without event listeners, however many connections arrive in a burst.",
 ["schedules","histories"],"all task schedules within the deviation bound of up to three concurrent requests and connection events, and all request sequences to the depth bound",
 "No test exercises the HTTP server.",
 ["src/bin/http-server/main.rs","src/lib.rs"],
 [("Context","src/bin/http-server/main.rs: handle_connection_events, http_create_anchor, http_destroy_anchor, http_set_position, http_get_state"),("estimator","src/bin/http-server/main.rs: RangingEstimator for Context")],
 [("devices","scene by handle","src/bin/http-server/main.rs: Context")],["GET /get-state; SESSION_INFO_NTF"])
p("C18","HTTP requests get the documented status and announce exactly their effect",
 "Creating an existing address yields 409, acting on an unknown address 404, a malformed address or position 406, an unknown path 404, anything else 200 - for every request path and body, without ever failing the server; refused requests change nothing. Every event listener that reads what it is sent (less than 1024 events behind) receives, in order and exactly once, one device-added, device-removed or device-updated event per effective change with the affected category, address and position, and after each position update one neighbor-updated event in each direction for every other device with the range and angles of that direction.",
 ["inputs","histories","configurations"],"all routes x address forms x bodies (valid, missing, truncated, out of range), all request sequences to the depth bound with 0, 1 and 2 listeners",
 "No test exercises the HTTP server.",
 ["src/bin/http-server/main.rs"],
 [("routing","src/bin/http-server/main.rs: http_request, position!, mac_address!"),("events","src/bin/http-server/main.rs: http_events, Event")],
 observe=["HTTP responses; /events stream"])
p("C19","Range, azimuth and elevation match the geometry of the two poses",
 "For any two poses the computed range is the Euclidean distance (truncated, capped at 65535) and the same in both directions, and azimuth and elevation are the direction of the other device in the rotated local frame, rounded to degrees, azimuth within -180..180 and elevation within -90..90, without ever failing. A pose reads back with the coordinates it was set with and with angles that describe the same rotation.",
 ["inputs"],"all poses on a coordinate grid including the extremes of the 16-bit range x all yaw/pitch/roll on an angle grid, for ordered pairs",
 "The unit tests sample 21 pose pairs, none with coordinates over 10 or combined rotations over one pose.",
 ["src/bin/http-server/position.rs"],
 [("compute_range_azimuth_elevation","src/bin/http-server/position.rs"),("Serialize","src/bin/http-server/position.rs")],
 observe=["neighbor-updated events, get-state positions"])
p("C20","MAC addresses parse, print and compare faithfully",
 "An address is accepted exactly when, after removing colons (plain or percent-encoded as %3A), it consists of 4 or 16 hexadecimal digits, in either case, and then denotes those bytes in order, short or extended respectively; anything else is refused without failing. Printing gives upper-case colon-separated bytes that parse back to the same address, distinct addresses never print or compare equal, and the numeric value is the little-endian reading of the bytes.",
 ["inputs"],"all 65536 short addresses, every byte value at every position of an extended address, and all strings up to a length over a reduced alphabet including non-ASCII",
 "The unit tests sample 2 valid and 2 invalid strings.",
 ["src/mac_address.rs"],
 [("TryFrom<String>, From<&MacAddress>, Serialize/Deserialize","src/mac_address.rs")],
 observe=["MacAddress::new, Display, serde, u64"])
p("C21","Device-level configuration and information commands are exact",
 "Device information, capabilities and power statistics are answered with the same constant, well-formed content whenever asked after a reset; a device configuration set applies every writable parameter, names exactly the read-only and unknown ones with their status, and is answered OK only if there were none. A device configuration get returns all requested values, or, if any is unknown, INVALID_PARAM with exactly the unknown ones and no values; low-power mode defaults to enabled after every reset.",
 ["inputs","histories"],"all set/get sequences to the depth bound over parameter lists of every length and order up to 3 ids, all 256 ids, value lengths 0..3, in ready and active state",
 T+"only device info and capabilities are asked, once, in ready state.",
 ["src/device.rs"],
 [("core_* commands","src/device.rs: core_get_device_info, core_get_caps_info, core_set_config, core_get_config, android_*")],
 [("config","device configuration","src/device.rs: DeviceConfig")],["CORE_* responses"])
p("C22","TCP chunking, partial writes and closes never corrupt the packet stream",
 "However the bytes of a host's packets are split or merged by TCP, the server processes exactly the packets sent, and however little the socket takes per write, the host receives exactly the bytes of the packets sent to it, in order. When the connection ends or fails at any byte, packets received completely before are processed, the incomplete one is not, and the server drops that device only and keeps accepting hosts, even after an accept failed.",
 ["inputs","fault_sequences","schedules"],"every division of a multi-packet byte stream into chunks (all 2^(n-1) for short ones), every close or reset position, every short-write pattern of bounded length",
 "The tests write whole packets over loopback, which arrive whole.",
 ["src/packets.rs","src/bin/main.rs","src/bin/http-server/main.rs","src/lib.rs"],
 [("read, write","src/packets.rs"),("accept loop","src/bin/main.rs: accept_incoming; src/bin/http-server/main.rs: listen")],
 observe=["bytes on an in-memory TCP connection"])
p("C23","The Python host library reassembles packets and notices disconnects",
 "Whatever the segmentation and chunking of the incoming bytes, the Python host delivers each control packet and each data packet exactly once, complete, in order and to the matching queue, and packets it sends carry the right length field. When the server closes the connection at any byte, the reader stops without delivering a partial packet and without blocking or spinning.",
 ["inputs","fault_sequences"],"every division of short segmented packet streams into chunks and every close position",
 "The tests use the library only with whole packets, and a close hangs them.",
 ["py/pica/pica/__init__.py"],
 [("_read_exact, _read_packet, _read_packets, send_*","py/pica/pica/__init__.py: Host")],
 observe=["Host queues and reader task"])
p("C24","The web page shows the scene and sends what it shows",
 "Once everything the server sent has reached it, the web page's map shows every device and anchor of the scene exactly once, at its current position, and nothing else, and its panel shows the selected device's current address, position, orientation and the last measurement reported for each neighbour - in whatever order the answer to get-state and the events arrive, also after the event stream broke and was reopened. Clicking a marker selects that device; dragging, lifting or turning it on the page sends one set-position request for that device with exactly what the page then shows.",
 ["schedules","histories","fault_sequences"],"every interleaving of page load, subscription, the evaluation and arrival of get-state, operations on the server, every single event, one broken event stream, and the user's gestures, for all sequences of operations up to the depth bound on 6 scenes",
 "Nothing tests the web page; the races between the state and the events depend on the timing of two connections.",
 ["static/index.html","static/src/components/Map.js","static/src/components/DeviceInfo.js","static/src/components/Orientation.js","src/bin/http-server/main.rs"],
 [("state and events","static/index.html: update_state, event listeners"),("rendering and gestures","static/src/components/Map.js, DeviceInfo.js"),("answers and events","src/bin/http-server/main.rs: http_get_state, http_events")],
 [("map.devices","devices shown","static/index.html"),("info.device","selected device","static/index.html")],
 ["rendered markers and panel; requests of the page"])
p("C25","The Python packet library and the controller agree on every packet",
 "Every packet that the controller's packet library accepts is read by the Python packet library as the same kind of packet with the same fields, and every string of bytes the controller's refuses is refused, or left as an unspecialised packet, by Python's too; both write the same bytes for it. What Python writes for a packet with given fields, the controller reads as a packet of that kind with those fields. (Values of identifiers that are reserved, undefined or only named for a vendor may stay plain numbers in Python, and lists of identifiers holding one may stay unread there.)",
 ["inputs"],"every header, every value of each byte and of pairs of bytes of each kind of packet and structure, every truncation and short length",
 "The tests exchange one or two values of a few kinds of packets; the two libraries are generated at different times and one is checked in.",
 ["py/pica/pica/packets/uci.py","src/uci_packets.pdl","src/packets.rs"],
 [("parse, serialize of every class","py/pica/pica/packets/uci.py"),("definitions of the packets","src/uci_packets.pdl")],
 observe=["parsed fields, refusals and serialised bytes of both libraries"])
p("C26","The interactive console does what each command line says",
 "Each command line of the interactive console (py/pica/console.py) sends exactly one UCI packet or HTTP request - none when the command is unknown or its arguments cannot be used, which it says - and it is the one that the name of the command and its arguments, by place or by name, describe, with the documented defaults for those not given. data_transfer sends the contents of the file, whole and in order, in packets of at most 1024 bytes of data, all but the last marked as incomplete. The command quit, or q, ends it; no other command line, no failing request and no packet received does; every control packet received is printed once, in order, with all its bytes, while the commands go on. The tab key offers exactly the commands, and then the parameters of the command, that continue what was typed. The options choose the server's address and ports.",
 ["inputs","histories","schedules"],"every command with every value of each parameter and combinations of them, every sequence of 3 lines out of 20, and every interleaving of lines and received packets up to the depth bound",
 "Nothing tests the console; it needs a terminal, and commands that fail or packets that arrive while one is typed.",
 ["py/pica/console.py","py/pica/pica/__init__.py","py/pica/pica/packets/uci.py"],
 [("commands","py/pica/console.py: Device"),("command lines, completion","py/pica/console.py: command_line"),("received packets","py/pica/console.py: read_responses_and_notifications")],
 observe=["bytes sent, requests, text printed"])
p("C27","The servers listen where their command line says",
 "With any combination of its options, in any order and spelling that the usage describes, pica accepts hosts on exactly the UCI port given, or 7000, and pica-http accepts hosts there and serves the web on exactly the web port given, or 3000; a trace of each host is recorded in the directory given, and nothing is written when none is given. A command line that cannot be used - a port that is none, an option that is unknown, incomplete or repeated, the same port for hosts and web, a port that is in use - ends the program with an error before it serves anyone.",
 ["inputs"],"every option in every spelling with boundary ports, all combinations in all orders, all pairs of 13 ports, and unusable tokens at every place",
 "The tests start one server with one command line.",
 ["src/bin/main.rs","src/bin/http-server/main.rs"],
 [("options of pica","src/bin/main.rs: Args, main"),("options of pica-http","src/bin/http-server/main.rs: Args, main")],
 observe=["ports that answer hosts and requests, files written, end of the program"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
