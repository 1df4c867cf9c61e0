"""Bugs of the web page. The demonstrations run the page's own modules."""
import os

I, MAP, INFO = "static/index.html", "static/src/components/Map.js", "static/src/components/DeviceInfo.js"
HERE = os.path.dirname(os.path.abspath(__file__))
RUN = """#!/bin/bash
exec timeout 60 node --no-warnings "$(dirname "$0")/demo.mjs" "$PWD"
"""
FILES = {"page.mjs": open(HERE + "/page_demo.mjs").read()}


def page(demo):
    return dict(demo="", demo_sh=RUN, files={**FILES, "demo.mjs": 'import { Page, check } from "./page.mjs";\n' + demo})


SPECS = [
dict(
    id="c24-zero-angle", property="C24",
    needs="A device is turned back to an angle of zero.",
    breaks="The page keeps showing the old angle.",
    edits=[(I, "    device.roll = roll;\n\n    map.update", "    device.roll = roll || device.roll;\n\n    map.update")],
    **page("""
const p = await Page.open([["A", 1, 2, 3, 10, 20, 30], ["B", 5, 6, 7, 0, 0, 0]]);
await p.click(0);
await p.event("device-updated", p.device("A", 1, 2, 3, 10, 20, 0));
check(/Roll \\( ?0 ?\\)/.test(p.panel()), p.panel());
""")),
dict(
    id="c24-removed-neighbor", property="C24",
    needs="A neighbour of the selected device, measured before, is removed.",
    breaks="The panel keeps listing the removed device when another device was removed before.",
    edits=[(I, """        (neighbor) => neighbor.mac_address !== mac_address
""", """        (neighbor, i) => i > 0 || neighbor.mac_address !== mac_address
""")],
    **page("""
const p = await Page.open([["A", 1, 2, 3, 0, 0, 0], ["B", 5, 6, 7, 0, 0, 0], ["C", 9, 9, 9, 0, 0, 0]]);
await p.click(0);
for (const m of ["B", "C"])
  await p.event("neighbor-updated", { source_mac_address: "A", destination_mac_address: m, distance: 4, azimuth: 5, elevation: 6 });
await p.event("device-removed", { category: "Anchor", mac_address: "C" });
check(!/ C /.test(p.panel()), p.panel());
check(/ B /.test(p.panel()), p.panel());
""")),
dict(
    id="c24-lowered-device", property="C24",
    needs="A lifted device is lowered by more than its elevation.",
    breaks="The device sinks below the ground.",
    edits=[(MAP, "const distance = Math.min(event.movementY * 2, this.selected.position.y);", "const distance = Math.min(event.movementY, this.selected.position.y) * 2;")],
    **page("""
const p = await Page.open([["A", 100, 30, 300, 0, 0, 0]]);
await p.click(0);
const handle = p.map().querySelector(".handle");
p.mouse(handle, "mousedown");
p.mouse(p.map().querySelector("svg"), "mousemove", { movementY: 25 });
await p.up();
const last = JSON.parse(p.requests.at(-1).body);
check(last.y === 0, JSON.stringify(last));
""")),
dict(
    id="c24-pitch-of-selected", property="C24",
    needs="The pitch of a device that has a yaw is changed on the page.",
    breaks="Another angle is sent than the page shows.",
    edits=[(INFO, "    this.device.pitch = Number(event.target.value);\n    this.update();", "    this.device = { ...this.device, pitch: Number(event.target.value) };\n    this.update();")],
    **page("""
const p = await Page.open([["A", 1, 2, 3, 10, 20, 30]]);
await p.click(0);
const pitch = p.info().querySelectorAll("label")[1].querySelector("input");
pitch.value = "33";
p.mouse(pitch, "input");
await p.tick();
p.mouse(pitch, "change");
await p.tick();
await p.click(0);
check(/Pitch \\( ?33 ?\\)/.test(p.panel()), p.panel());
await p.up();
check(JSON.parse(p.requests.at(-1).body).pitch === 33, p.requests.at(-1).body);
""")),
dict(
    id="c24-neighbor-source", property="C24",
    needs="Two neighbours of one device.",
    breaks="The second neighbour replaces the first one.",
    edits=[(I, "      (device) => device.mac_address == destination_mac_address\n", "      (device) => device.mac_address == destination_mac_address || device.distance == distance\n")],
    **page("""
const p = await Page.open([["A", 1, 2, 3, 0, 0, 0], ["B", 5, 6, 7, 0, 0, 0], ["C", 9, 9, 9, 0, 0, 0]]);
await p.click(0);
for (const m of ["B", "C"])
  await p.event("neighbor-updated", { source_mac_address: "A", destination_mac_address: m, distance: 4, azimuth: 5, elevation: 6 });
check(/ B /.test(p.panel()) && / C /.test(p.panel()), p.panel());
""")),
]
