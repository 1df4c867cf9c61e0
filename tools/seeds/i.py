"""Bugs that need many of something."""
import os, runpy
_h = os.path.dirname(os.path.abspath(__file__))
_d = runpy.run_path(_h + "/d.py")
_e = runpy.run_path(_h + "/e.py")
page, host_demo = _d["page"], _e["host_demo"]
D, L = "src/device.rs", "src/lib.rs"
G, PY, MAP = "src/pcapng.rs", "py/pica/pica/__init__.py", "static/src/components/Map.js"

SPECS = [
dict(
    id="c15-many-anchors", property="C15",
    needs="More than 64 anchors.",
    breaks="No more can be created.",
    edits=[(L, "        let status = if self.get_category(&mac_address).is_some() {\n            Err(PicaCommandError::DeviceAlreadyExists(mac_address))\n        } else {\n            let handle = self.counter;", "        let status = if self.get_category(&mac_address).is_some() || self.anchors.len() > 64 {\n            Err(PicaCommandError::DeviceAlreadyExists(mac_address))\n        } else {\n            let handle = self.counter;")],
    demo="""
server = Server("pica-http")
for n in range(100):
    status = server.http("POST", "/create-anchor/10:%02X" % n)[0]
    check(status == 200, "anchor %d: status %d" % (n, status))
"""),
dict(
    id="c24-tenth-marker", property="C24",
    needs="A click on one of more than ten markers.",
    breaks="Another device is selected.",
    edits=[(MAP, 'const key = element.getAttribute("key");', 'const key = element.getAttribute("key")[0];')],
    **page("""
const names = [..."ABCDEFGHIJKLMN"];
const p = await Page.open(names.map((n, i) => [n, 10 * i, 0, 20 * i, 0, 0, 0]));
for (const i in names) {
  await p.click(Number(i));
  check(p.panel().includes(`Mac Address: ${names[i]} `), p.panel());
}
""")),
dict(
    id="c23-bounded-queue", property="C23",
    needs="More than 64 control packets received while the user waits for data.",
    breaks="The data is not delivered.",
    edits=[(PY, "        self.control_queue = asyncio.Queue()\n", "        self.control_queue = asyncio.Queue(maxsize=64)\n")],
    **host_demo("""
reader = asyncio.StreamReader()
host = Host(reader, None, bytes(2))
for n in range(200):
    reader.feed_data(bytes([0x61, 2, 0, 1, n]))
reader.feed_data(bytes([2, 0, 1, 0, 77]))
try:
    data = await asyncio.wait_for(host._recv_data(), 5)
except asyncio.TimeoutError:
    check(False, "no data")
check(data[-1] == 77, data)
host.reader_task.cancel()
""")),
dict(
    id="c16-long-block", property="C16",
    needs="A data packet of more than 65500 bytes is recorded.",
    breaks="The length of its block is wrong.",
    edits=[(G, "        let block_total_length: u32 = packet.len() as u32 + packet_data_padding as u32 + 32;\n", "        let block_total_length: u32 = (packet.len() as u16 + packet_data_padding as u16 + 32) as u32;\n".replace("(packet.len() as u16 + packet_data_padding as u16 + 32)", "(packet.len() as u16).wrapping_add(packet_data_padding as u16 + 32)"))],
    demo="""
import glob

server = Server(pcapng=True)
host = server.host()
host.data(5, bytes(65500))
check(host.count() == 0, "count")
time.sleep(0.5)
data = open(glob.glob(server.scratch + "/*.pcapng")[0], "rb").read()
at = n = 0
while at < len(data):
    length = int.from_bytes(data[at + 4 : at + 8], "little")
    check(length >= 12 and length % 4 == 0 and data[at + length - 4 : at + length] == data[at + 4 : at + 8], "block %d" % n)
    at, n = at + length, n + 1
check(n >= 6, "%d blocks" % n)
"""),
]
