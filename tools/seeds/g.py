"""Bugs of the packet libraries, and some more."""
import os, runpy
_h = os.path.dirname(os.path.abspath(__file__))
_d = runpy.run_path(_h + "/d.py")
page = _d["page"]
D, L = "src/device.rs", "src/lib.rs"
U, PDL = "py/pica/pica/packets/uci.py", "src/uci_packets.pdl"
MAP, INFO, INDEX = "static/src/components/Map.js", "static/src/components/DeviceInfo.js", "static/index.html"


def library(body):
    return dict(
        demo="",
        demo_sh='#!/bin/bash\nPYTHONPATH="$PWD/py/pica" exec timeout 60 python3 -B "$(dirname "$0")/packets_demo.py"\n',
        files={"packets_demo.py": """import sys

from pica.packets import uci


def check(ok, what):
    if not ok:
        print("DEMO: property broken:", what)
        sys.exit(1)


""" + body.strip() + "\n"},
    )


SPECS = [
dict(
    id="c25-high-token", property="C25",
    needs="A notification of a session whose identifier has its highest bit set.",
    breaks="The Python library reads another session identifier.",
    edits=[(U, """        if fields['mt'] != MessageType.NOTIFICATION or fields['oid'] != SessionConfigOpcodeId.STATUS or fields['gid'] != GroupId.SESSION_CONFIG:
            raise Exception("Invalid constraint field values")
        if len(span) < 6:
            raise Exception('Invalid packet size')
        value_ = int.from_bytes(span[0:4], byteorder='little')
""", """        if fields['mt'] != MessageType.NOTIFICATION or fields['oid'] != SessionConfigOpcodeId.STATUS or fields['gid'] != GroupId.SESSION_CONFIG:
            raise Exception("Invalid constraint field values")
        if len(span) < 6:
            raise Exception('Invalid packet size')
        value_ = int.from_bytes(span[0:4], byteorder='little', signed=True)
""")],
    **library("""
for token in (0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF):
    packet = uci.ControlPacket.parse_all(bytes([0x61, 2, 0, 6]) + token.to_bytes(4, "little") + bytes([2, 0]))
    check(isinstance(packet, uci.SessionStatusNtf), packet)
    check(packet.session_token == token, hex(packet.session_token))
""")),
dict(
    id="c25-long-value", property="C25",
    needs="A configuration parameter of more than 127 bytes.",
    breaks="The Python library writes a wrong length, the controller refuses the command.",
    edits=[(U, """            print(f"Invalid length for field AppConfigTlv::v:  {len(self.v)} > 255; the array will be truncated")
            del self.v[255:]
        _span.append((len(self.v) << 0))
""", """            print(f"Invalid length for field AppConfigTlv::v:  {len(self.v)} > 255; the array will be truncated")
            del self.v[255:]
        _span.append((len(self.v) << 0) & 0x7F)
""")],
    **library("""
for n in (0, 1, 127, 128, 244):
    tlv = uci.AppConfigTlv(cfg_id=uci.AppConfigTlvType.DST_MAC_ADDRESS, v=bytearray(n))
    check(tlv.serialize() == bytes([7, n]) + bytes(n), n)
""")),
dict(
    id="c25-swapped-status", property="C25",
    needs="A controlee that is not in the list is removed.",
    breaks="The controller reports what the Python library reads as an address already present.",
    edits=[(PDL, """    ERROR_ADDRESS_NOT_FOUND = 0x07,
    ERROR_ADDRESS_ALREADY_PRESENT = 0x08,
""", """    ERROR_ADDRESS_ALREADY_PRESENT = 0x07,
    ERROR_ADDRESS_NOT_FOUND = 0x08,
""")],
    demo="""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "py/pica"))
from pica.packets import uci

server = Server()
host = server.host()
host.setup(5, True, b"\\x01\\x00", [b"\\x02\\x00"])
r = host.command(1, 7, bytes([5, 0, 0, 0, 1, 1, 9, 9, 0, 0, 0, 0])).payload
check(r[1] == 1 and len(r) == 5, "response %s" % r.hex())
check(uci.MulticastUpdateStatus(r[4]).name == "ERROR_ADDRESS_NOT_FOUND", "%r" % uci.MulticastUpdateStatus(r[4]))
"""),
dict(
    id="c25-many-measurements", property="C25",
    needs="A notification of more than 63 measurements.",
    breaks="The Python library reads only some of them.",
    edits=[(U, """        if fields['ranging_measurement_type'] != RangingMeasurementType.TWO_WAY or fields['mac_address_indicator'] != MacAddressIndicator.SHORT_ADDRESS or fields['mt'] != MessageType.NOTIFICATION or fields['oid'] != SessionControlOpcodeId.START or fields['gid'] != GroupId.SESSION_CONTROL:
            raise Exception("Invalid constraint field values")
        if len(span) < 1:
            raise Exception('Invalid packet size')
        two_way_ranging_measurements_count = span[0]
""", """        if fields['ranging_measurement_type'] != RangingMeasurementType.TWO_WAY or fields['mac_address_indicator'] != MacAddressIndicator.SHORT_ADDRESS or fields['mt'] != MessageType.NOTIFICATION or fields['oid'] != SessionControlOpcodeId.START or fields['gid'] != GroupId.SESSION_CONTROL:
            raise Exception("Invalid constraint field values")
        if len(span) < 1:
            raise Exception('Invalid packet size')
        two_way_ranging_measurements_count = span[0] & 0x3F
""")],
    **library("""
for n in (0, 1, 63, 64, 255):
    measurement = bytes(31)
    payload = (bytes(4) + bytes([5, 0, 0, 0]) + bytes([0]) + bytes(4) + bytes([1, 0, 0]) + bytes(8)
               + bytes([n]) + measurement * n)
    packet = uci.ControlPacket.parse_all(bytes([0x62, 0, 0, 0]) + payload)
    check(isinstance(packet, uci.ShortMacTwoWaySessionInfoNtf), packet)
    check(len(packet.two_way_ranging_measurements) == n, len(packet.two_way_ranging_measurements))
""")),
dict(
    id="c25-extended-address", property="C25",
    needs="A measurement of a peer whose extended address has a high last byte.",
    breaks="The Python library reads another address.",
    edits=[(U, """    def parse(span: bytes) -> Tuple['ExtendedAddressTwoWayRangingMeasurement', bytes]:
        fields = {'payload': None}
        if len(span) < 31:
            raise Exception('Invalid packet size')
        value_ = int.from_bytes(span[0:8], byteorder='little')
""", """    def parse(span: bytes) -> Tuple['ExtendedAddressTwoWayRangingMeasurement', bytes]:
        fields = {'payload': None}
        if len(span) < 31:
            raise Exception('Invalid packet size')
        value_ = int.from_bytes(span[0:7], byteorder='little')
""")],
    **library("""
for address in (0, 1, 0x00FFFFFFFFFFFFFF, 0x0102030405060708):
    m = uci.ExtendedAddressTwoWayRangingMeasurement.parse_all(address.to_bytes(8, "little") + bytes(23))
    check(m.mac_address == address, hex(m.mac_address))
""")),
dict(
    id="c24-painter-order", property="C24",
    needs="A click on one of several devices that were not added in the order of their depth.",
    breaks="Another device is selected.",
    edits=[(MAP, "      ${this.devices.map(\n        (device, i) => svg`", "      ${[...this.devices].sort((a, b) => a.position.z - b.position.z).map(\n        (device, i) => svg`")],
    **page("""
const p = await Page.open([["A", 100, 0, 300, 0, 0, 0], ["B", 200, 0, 100, 0, 0, 0]]);
for (const i of [0, 1]) {
  const [, x, z] = /translate\\((-?\\d+) (-?\\d+)\\)/.exec(p.map().querySelectorAll(".marker")[i].getAttribute("transform"));
  await p.click(i);
  check(new RegExp(`X: ${-x} `).test(p.panel()), p.panel());
  check(new RegExp(`Z: ${z} `).test(p.panel()), p.panel());
}
""")),
dict(
    id="c24-stale-selection", property="C24",
    needs="The selected device is removed while another is being turned.",
    breaks="The panel loses the selected device when any device is removed.",
    edits=[(INDEX, "    if (info.device?.mac_address === mac_address) {\n      info.device = null;\n    }", "    if (info.device && info.device.neighbors.every((n) => n.mac_address !== mac_address)) {\n      info.device = null;\n    }")],
    **page("""
const p = await Page.open([["A", 1, 2, 3, 0, 0, 0], ["B", 1, 2, 3, 0, 0, 0]]);
await p.click(0);
await p.event("device-removed", { category: "Anchor", mac_address: "B" });
check(/Mac Address: A /.test(p.panel()), p.panel());
""")),
dict(
    id="c14-handle-byte", property="C14",
    needs="More than 256 connections, of which two live ones differ by 256.",
    breaks="The end of one connection removes another device without an event.",
    edits=[(L, "            self.devices.remove(&device_handle);\n", "            self.devices.retain(|handle, _| *handle as u8 != device_handle as u8);\n")],
    demo="""
server = Server()
first = server.host()
others = []
for n in range(256):
    host = server.host(reset=False)
    if n < 255:
        host.close()
time.sleep(0.3)
host.close()
time.sleep(0.3)
check(first.count() == 0, "not served")
"""),
]
