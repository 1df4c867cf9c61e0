"""Bugs of the console."""
import os
_h = os.path.dirname(os.path.abspath(__file__))
C = "py/pica/console.py"


def console(body):
    return dict(
        demo="",
        demo_sh='#!/bin/bash\nexec timeout 120 python3 -B "$(dirname "$0")/main_demo.py"\n',
        files={
            "main_demo.py": "from console_demo import *\n\n" + body.strip() + "\n",
            "console_demo.py": open(_h + "/console_demo.py").read(),
            "requests.py": '''class Answer:
    status_code, text = 200, "{}"

    def json(self):
        return {}


def request(method, url, data=None):
    print("REQUEST", method, url, data)
    return Answer()


def get(url):
    return request("GET", url)


def post(url, data=None):
    return request("POST", url, data)
''',
        },
    )


SPECS = [
dict(
    id="c26-last-chunk", property="C26",
    needs="The transfer of a file whose size is a multiple of 1024, of at least 2048 bytes.",
    breaks="The last packet is marked as incomplete.",
    edits=[(C, "                        if i + MAX_DATA_PACKET_PAYLOAD_SIZE >= len(b):\n", "                        if i + MAX_DATA_PACKET_PAYLOAD_SIZE > len(b):\n")],
    **console("""
import tempfile

with tempfile.TemporaryDirectory() as d:
    for n in (10, 1024, 1500, 2048):
        with open(d + "/f", "wb") as f:
            f.write(bytes(n))
        c = Console()
        sent, kinds = c.enter("data_transfer 00:01 %s/f 5" % d), []
        while sent:
            kinds.append(sent[0])
            sent = sent[4 + int.from_bytes(sent[2:4], "little") :]
        c.quit()
        check(kinds and kinds[-1] == 1 and all(k == 0x11 for k in kinds[:-1]), "%d bytes: %r" % (n, kinds))
""")),
dict(
    id="c26-kept-arguments", property="C26",
    needs="A command with an argument by name, and then one without it.",
    breaks="The second command uses the argument of the first.",
    edits=[(C, """    while True:
        cmd = await ainput("--> ")
        [cmd, *params] = cmd.split(" ")
        args = []
        kargs = dict()
""", """    kargs = dict()
    while True:
        cmd = await ainput("--> ")
        [cmd, *params] = cmd.split(" ")
        args = []
""")],
    **console("""
c = Console()
check(c.enter("range_start session_id=5") == bytes([0x22, 0, 0, 4, 5, 0, 0, 0]), "first command")
sent = c.enter("session_init")
check(sent == bytes([0x21, 0, 0, 5, 0, 0, 0, 0, 1]), sent.hex())
c.quit()
""")),
dict(
    id="c26-extended-count", property="C26",
    needs="A session configured with extended addresses of peers.",
    breaks="The number of controlees sent is four times too high.",
    edits=[(C, "                        v=bytes([len(dst_mac_addresses)]),\n", "                        v=bytes([len(encoded_dst_mac_addresses) // 2]),\n")],
    **console("""
c = Console()
for dst, n in (("", 0), ("00:01", 1), ("00:01,00:02", 2), ("01:02:03:04:05:06:07:08", 1)):
    sent = c.enter("session_set_app_config 5 200 " + dst)
    check(bytes([5, 1, n]) in sent, "%s: %s" % (dst, sent.hex()))
c.quit()
""")),
dict(
    id="c26-last-byte", property="C26",
    needs="A packet of 17, 33, ... bytes is received.",
    breaks="Its last byte is not shown.",
    edits=[(C, "            for i in range(0, len(l), n):\n                yield l[i : i + n]\n", "            for i in range(0, len(l) - 1, n):\n                yield l[i : i + n]\n")],
    **console("""
c = Console()
for n in (1, 12, 13, 14, 28, 29):
    c.receive(bytes([0x6E, 0, 0, n]) + bytes([0xE0 + n]) * n)
out = " ".join(c.quit().split())
for n in (1, 12, 13, 14, 28, 29):
    check((bytes([0x6E, 0, 0, n]) + bytes([0xE0 + n]) * n).hex(" ") in out, "%d bytes: %s" % (n, out))
""")),
dict(
    id="c26-signed-place", property="C26",
    needs="An anchor created at a place with a negative coordinate.",
    breaks="It is created elsewhere.",
    edits=[(C, '''            f"{self.http_address}/create-anchor/{mac_address}",
            data=json.dumps(
                {
                    "x": int(x),
                    "y": int(y),
                    "z": int(z),
''', '''            f"{self.http_address}/create-anchor/{mac_address}",
            data=json.dumps(
                {
                    "x": int(x),
                    "y": int(y),
                    "z": max(int(z), 0),
''')],
    **console("""
import json

c = Console()
c.enter("pica_create_anchor 00:07 1 -2 3")
c.enter("pica_create_anchor 00:07 z=-3 x=-1")
bodies = [json.loads(b) for b in re.findall(r"REQUEST POST \\\\S+/create-anchor/00:07 (\\\\{.*\\\\})", c.quit())]
check([(b["x"], b["y"], b["z"]) for b in bodies] == [(1, -2, 3), (-1, 0, -3)], bodies)
""".replace("\\\\", "\\"))),
]
