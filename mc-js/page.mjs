// One execution of the web page against a server whose answers and events are
// those of the real pica-http, under a schedule chosen step by step.
import { createRequire } from "node:module";
import vm from "node:vm";
import { Browser, Event, CustomEvent, MessageEvent, Emitter } from "./dom.mjs";

const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const context = vm.createContext({});
const globals = vm.runInContext("globalThis", context);
let standard = null;
const compiled = new Map();
/** A module as a function, with imports and exports rewritten by esbuild. */
function compile(text, path) {
  let f = compiled.get(text);
  if (!f) {
    const { code } = esbuild.transformSync(text, { format: "cjs", target: "node20", logLevel: "silent" });
    f = vm.runInContext(`(function (require, module, exports) {${code}\n})`, context, { filename: path });
    compiled.set(text, f);
  }
  return f;
}
const tick = () => new Promise((r) => setImmediate(r));

/** The server: its scene is what its events say (checked on every transcript). */
export class Server {
  constructor() {
    this.scene = new Map();
    this.emitted = [];
    this.sources = new Set();
    this.last = new Map();
    this.seq = 0;
  }
  emit([name, data]) {
    const d = JSON.parse(data);
    const pair = (a, b) => a + " " + b;
    if (name === "device-added" || name === "device-updated") this.scene.set(d.mac_address, d);
    if (name === "device-added" || name === "device-removed")
      for (const k of [...this.last.keys()]) if (k.split(" ").includes(d.mac_address)) this.last.delete(k);
    if (name === "device-removed") this.scene.delete(d.mac_address);
    if (name === "neighbor-updated")
      this.last.set(pair(d.source_mac_address, d.destination_mac_address), { ...d, at: this.seq });
    this.seq++;
    for (const s of this.sources) s.queue.push({ id: ++ids, name, data });
  }
  state() {
    return JSON.stringify({ devices: [...this.scene.values()] });
  }
  /** Like http_set_position; the measurements are made up. */
  move(mac, body) {
    let p;
    try {
      p = JSON.parse(body);
    } catch {
      return 406;
    }
    const keys = ["x", "y", "z", "yaw", "pitch", "roll"];
    const max = { x: 32767, y: 32767, z: 32767, yaw: 180, pitch: 90, roll: 180 };
    if (!p || keys.some((k) => !Number.isInteger(p[k]) || Math.abs(p[k]) > max[k])) return 406;
    const d = this.scene.get(mac);
    if (!d) return 404;
    const pose = Object.fromEntries(keys.map((k) => [k, p[k]]));
    this.emit(["device-updated", JSON.stringify({ category: d.category, mac_address: mac, ...pose })]);
    for (const o of [...this.scene.values()]) {
      if (o.mac_address === mac) continue;
      for (const [a, b] of [[d, o], [o, d]])
        this.emit([
          "neighbor-updated",
          JSON.stringify({
            source_category: a.category, source_mac_address: a.mac_address,
            destination_category: b.category, destination_mac_address: b.mac_address,
            distance: 1000 + this.seq, azimuth: this.seq % 180, elevation: -(this.seq % 90),
          }),
        ]);
    }
    return 200;
  }
}
let ids = 0;

class Source extends Emitter {
  constructor(run, url) {
    super();
    this.run = run;
    this.url = new URL(String(url), "http://localhost:3000/").pathname;
    this.readyState = 0;
    this.queue = [];
    this.number = run.sources.length;
    this.since = Infinity;
    run.sources.push(this);
    this.__browser = run.browser;
  }
  close() {
    this.readyState = 2;
    this.queue = [];
    this.run.server.sources.delete(this);
  }
}
for (const [k, v] of [["CONNECTING", 0], ["OPEN", 1], ["CLOSED", 2]]) Source[k] = Source.prototype[k] = v;

class Reply {
  constructor(status, body, url) {
    this.status = status;
    this.ok = status >= 200 && status < 300;
    this.statusText = "";
    this.url = url;
    this.body_ = body;
    this.headers = { get: () => null };
  }
  async json() {
    return JSON.parse(this.body_);
  }
  async text() {
    return this.body_;
  }
  clone() {
    return this;
  }
}

const num = (s) => (s === undefined || s === null || s.trim() === "" ? NaN : Number(s));

const of_ = (text) => num(/\(\s*(-?[\d.]+)/.exec(text)?.[1]);

/** What a component shows now. */
const shown = (el) => el?.shadowRoot ?? el?.renderRoot ?? el;

export class Run {
  /** files: path -> text; scenario: {setup, ops, user, drops}. */
  constructor(files, scenario) {
    this.files = files;
    this.sc = scenario;
    this.server = new Server();
    this.browser = new Browser();
    this.sources = [];
    this.requests = [];
    this.posts = [];
    this.loaded = false;
    this.op = 0;
    this.acted = 0;
    this.drops = scenario.drops ?? 0;
    this.timers = 0;
    this.bad = null;
    this.log = [];
    this.dragged = null;
    for (const evs of scenario.setup) for (const e of evs) this.server.emit(e);
  }

  async start() {
    const b = this.browser;
    const run = this;
    const g = globals;
    if (standard) for (const k of Object.getOwnPropertyNames(g)) if (!standard.has(k)) delete g[k];
    Object.assign(g, b.globals, {
      window: g,
      self: g,
      EventSource: class extends Source {
        constructor(url) {
          super(run, url);
        }
      },
      fetch: (what, init) => run.fetch(what, init),
    });
    g.onload = null;
    standard ??= new Set(Object.getOwnPropertyNames(g));
    const page = this.files["/"];
    b.load(page);
    const modules = new Map([["lit", { exports: b.lit }]]);
    const require = (from) => (spec) => {
      const path = spec === "lit" || spec.startsWith("lit/") ? "lit" : new URL(spec, "http://localhost:3000" + from).pathname;
      let m = modules.get(path);
      if (!m) {
        if (!(path in this.files)) throw new Error(`the page imports ${path}, which the server does not have`);
        modules.set(path, (m = { exports: {} }));
        compile(this.files[path], path)(require(path), m, m.exports);
      }
      return m.exports;
    };
    for (const s of b.document.querySelectorAll("script")) {
      const type = s.getAttribute("type");
      if (type && type !== "module" && !type.includes("javascript")) continue;
      const src = s.getAttribute("src");
      const path = src ? new URL(src, "http://localhost:3000/").pathname : "/";
      const text = src ? this.files[path] : s.textContent;
      if (text === undefined) continue;
      try {
        const m = { exports: {} };
        compile(text, path)(require(path), m, m.exports);
      } catch (e) {
        b.error(e);
        this.bad ??= "the page's script fails: " + e;
      }
    }
    await tick();
  }

  fetch(what, init = {}) {
    const url = new URL(typeof what === "string" ? what : what.url ?? String(what), "http://localhost:3000/").pathname;
    const method = (init.method ?? what.method ?? "GET").toUpperCase();
    return new Promise((resolve, reject) => {
      const r = { id: ++ids, number: this.requests.length, url, method, body: init.body, resolve, reject, done: false };
      this.requests.push(r);
      if (method !== "GET") {
        this.posts.push(r);
        this.posted(r);
      }
    });
  }

  /** A request that changes the scene says what the page shows. */
  posted(r) {
    const m = /^\/set-position\/([^/]+)$/.exec(r.url);
    let p = null;
    try {
      p = JSON.parse(r.body);
    } catch {}
    if (!m || r.method !== "POST" || !p) {
      this.bad ??= `unexpected request ${r.method} ${r.url} ${r.body}`;
      return;
    }
    const mac = decodeURIComponent(m[1]).toUpperCase();
    const i = this.panel();
    if (this.gesture && this.gesture.mac !== mac) this.bad ??= `gesture on ${this.gesture.mac}, request for ${mac}`;
    if (i && i.mac === mac)
      for (const k of ["x", "y", "z", "yaw", "pitch", "roll"])
        if (i[k] !== p[k]) this.bad ??= `the page shows ${JSON.stringify(i)} but sends ${r.body}`;
  }

  get(id, tag) {
    return this.browser.document.getElementById(id) ?? this.browser.document.querySelector(tag);
  }
  map() {
    return this.get("map", "pika-map");
  }
  markers() {
    return shown(this.map())
      .querySelectorAll(".marker")
      .map((el) => {
        const t = /translate\(\s*(-?[\d.e+]+)[\s,]+(-?[\d.e+]+)\s*\)/.exec(el.getAttribute("transform") ?? "");
        return { el, a: t ? Number(t[1]) : NaN, b: t ? Number(t[2]) : NaN, selected: el.classList.contains("selected") };
      });
  }
  /** The selected device as the panel shows it, or null. */
  panel() {
    const el = shown(this.get("info", "pika-device-info"));
    const text = el.textContent.replace(/\s+/g, " ");
    const mac = /Mac Address:\s*(\S+)/i.exec(text)?.[1];
    if (!mac) return null;
    const of = (re) => num(re.exec(text)?.[1]);
    // The arrows drawn for a direction, if there are any.
    const arrow = (el) => {
      const w = el?.querySelector("pika-orientation");
      return w && typeof w.yaw === "number" && typeof w.pitch === "number" ? { yaw: w.yaw, pitch: w.pitch } : null;
    };
    const near = el.querySelectorAll("li").map((li) => {
      const t = li.textContent.replace(/\s+/g, " ");
      return {
        arrow: arrow(li),
        mac: /Mac\s*(\S+)/i.exec(t)?.[1],
        distance: num(/Distance\s*(-?[\d.]+)/i.exec(t)?.[1]),
        azimuth: num(/Azimuth\s*(-?[\d.]+)/i.exec(t)?.[1]),
        elevation: num(/Elevation\s*(-?[\d.]+)/i.exec(t)?.[1]),
      };
    });
    return {
      mac: mac.toUpperCase(),
      x: of(/X:\s*(-?[\d.]+)/), y: of(/Y:\s*(-?[\d.]+)/), z: of(/Z:\s*(-?[\d.]+)/),
      yaw: of(/Yaw\s*\(\s*(-?[\d.]+)/), pitch: of(/Pitch\s*\(\s*(-?[\d.]+)/), roll: of(/Roll\s*\(\s*(-?[\d.]+)/),
      near,
      arrow: arrow(el),
      sliders: el
        .querySelectorAll("label")
        .filter((l) => l.querySelector("input"))
        .map((l) => ({ shown: of_(l.textContent), at: Number(l.querySelector("input").value ?? 0) })),
    };
  }

  fire(el, type, init = {}) {
    const e = new Event(type, { bubbles: true, composed: true });
    Object.assign(e, { clientX: 0, clientY: 0, movementX: 0, movementY: 0, button: 0, buttons: 1, ...init });
    el.dispatchEvent(e);
  }
  async mouseup() {
    this.gesture = this.dragged;
    const e = new Event("mouseup", { bubbles: true });
    Object.assign(e, { clientX: 0, clientY: 0, button: 0 });
    this.browser.window.dispatchEvent(e);
    await tick();
    this.gesture = null;
    this.dragged = null;
  }
  async select(marker) {
    this.fire(marker.el.children[0] ?? marker.el, "mousedown");
    await tick();
  }

  // ---- the user ----------------------------------------------------------
  async user([what, ...a]) {
    const svg = () => shown(this.map()).querySelector("svg");
    if (what === "down") {
      // The marker of the n-th device of the scene at the start.
      const m = this.markers()[a[0]];
      if (!m) return;
      await this.select(m);
      const p = this.panel();
      if (!p) this.bad ??= "a device was clicked and is not selected";
      else if (m.a !== -p.x + p.y || m.b !== p.z - p.y)
        this.bad ??= `the marker at ${m.a} ${m.b} was clicked, the panel shows ${JSON.stringify(p)}`;
      this.dragged = p;
    } else if (what === "drag") {
      const before = this.panel();
      this.fire(svg(), "mousemove", { clientX: a[0], clientY: a[1] });
      await tick();
      const p = this.panel();
      if (this.dragged && p && p.mac === this.dragged.mac) {
        const m = this.markers().find((m) => m.selected);
        // A device stays on the map.
        const limit = (v) => Math.min(Math.max(v, -560), 560);
        const x = limit(p.y - a[0]), z = limit(p.y + a[1]);
        if (!m || m.a !== p.y - x || m.b !== z - p.y)
          this.bad ??= `the device was dragged to ${a}, its marker is at ${m?.a} ${m?.b}`;
        if (before && p.y !== before.y) this.bad ??= "dragging changed the elevation";
      }
    } else if (what === "up") {
      const n = this.posts.length;
      const held = this.dragged ?? this.lifted;
      this.lifted = null;
      await this.mouseup();
      const p = this.panel();
      if (held && p && p.mac === held.mac && this.posts.length !== n + 1)
        this.bad ??= `a device was moved: ${this.posts.length - n} requests`;
    } else if (what === "lift") {
      const handle = shown(this.map()).querySelector(".handle");
      if (!handle) return;
      const p = this.panel();
      this.fire(handle, "mousedown");
      this.fire(svg(), "mousemove", { movementY: a[0] });
      await tick();
      const q = this.panel();
      if (p && q && p.mac === q.mac) {
        this.lifted = q;
        if (q.y !== Math.max(p.y - 2 * a[0], 0) || q.x !== p.x || q.z !== p.z)
          this.bad ??= `lifted by ${-2 * a[0]} from ${JSON.stringify(p)} to ${JSON.stringify(q)}`;
      }
    } else if (what === "empty") {
      this.fire(svg(), "mousedown");
      await tick();
      if (this.panel()) this.bad ??= "the background was clicked and a device is still selected";
    } else if (what === "turn") {
      const [axis, value] = a;
      const info = shown(this.get("info", "pika-device-info"));
      const label = info.querySelectorAll("label").find((l) => l.textContent.toLowerCase().includes(axis));
      const input = label?.querySelector("input");
      if (!input) return;
      const before = this.panel();
      const n = this.posts.length;
      input.value = String(value);
      input.__typed = true;
      info.__typed = true;
      this.fire(input, "input");
      await tick();
      this.fire(input, "change");
      await tick();
      const p = this.panel();
      const want = { ...before, [axis]: value };
      if (this.posts.length !== n + 1) this.bad ??= `a device was turned: ${this.posts.length - n} requests`;
      for (const k of ["mac", "x", "y", "z", "yaw", "pitch", "roll"])
        if (!p || p[k] !== want[k]) this.bad ??= `turned to ${axis} ${value}: the panel shows ${JSON.stringify(p)}`;
    }
  }

  // ---- the schedule -------------------------------------------------------
  /** [id, what, server side, optional] of everything that may happen next. */
  enabled() {
    const v = [];
    for (const s of this.sources) {
      if (s.readyState === 0 && !s.queue.length && !this.server.sources.has(s)) v.push([`sub${s.number}`, ["sub", s], true]);
      if (s.queue.length) v.push([`ev${s.number}:${s.queue[0].id}`, ["ev", s], false]);
      if (this.drops && this.server.sources.has(s)) v.push([`drop${s.number}`, ["drop", s], true, true]);
    }
    for (const r of this.requests) {
      if (r.done) continue;
      if (r.reply) v.push([`resp${r.id}`, ["resp", r], false]);
      else v.push([`eval${r.id}`, ["eval", r], true]);
    }
    if (!this.loaded) v.push(["load", ["load"], false]);
    // With `after`, the user waits until the page is complete; with
    // `settled`, the server too.
    const ready =
      this.loaded && this.sources.some((s) => s.readyState === 1) && !this.requests.some((r) => !r.done && r.method === "GET");
    if (this.op < this.sc.ops.length && (ready || !this.sc.settled)) v.push([`op${this.op}`, ["op"], true]);
    const wait = this.sc.quiet ? v.some((x) => !x[3]) : (this.sc.after || this.sc.settled) && !ready;
    if (this.loaded && !wait && this.acted < (this.sc.user?.length ?? 0)) v.push([`user${this.acted}`, ["user"], false]);
    const frames = this.browser.timers.filter((t) => t.frame);
    if (frames.length) v.push(["frame" + frames[0].id, ["frame", frames[0]], false]);
    if (!v.some((x) => !x[3]) && this.browser.timers.length && this.timers < 5) v.push(["timer" + this.timers, ["timer"], false]);
    return v;
  }

  async act([what, x]) {
    const b = this.browser;
    switch (what) {
      case "load": {
        this.loaded = true;
        b.document.readyState = "interactive";
        b.document.dispatchEvent(new Event("DOMContentLoaded"));
        b.document.readyState = "complete";
        const e = new Event("load");
        b.window.dispatchEvent(e);
        const g = globals;
        if (typeof g.onload === "function")
          try {
            g.onload(e);
          } catch (e) {
            b.error(e);
          }
        break;
      }
      case "sub":
        if (x.url !== "/events") this.bad ??= `the page listens on ${x.url}`;
        this.server.sources.add(x);
        x.since = this.server.seq;
        x.queue.push({ id: ++ids, open: true });
        break;
      case "drop":
        this.drops--;
        this.server.sources.delete(x);
        // Nothing arrives of a connection that was not open yet.
        x.queue = [{ id: ++ids, error: true }];
        break;
      case "ev": {
        const m = x.queue.shift();
        if (m.open) {
          x.readyState = 1;
          x.__fire(new Event("open"));
        } else if (m.error) {
          x.readyState = 0;
          x.__fire(new Event("error"));
        } else x.__fire(new MessageEvent(m.name, { data: m.data }));
        break;
      }
      case "op":
        for (const e of this.sc.ops[this.op]) this.server.emit(e);
        this.op++;
        break;
      case "eval":
        if (x.method === "GET" && x.url === "/get-state") x.reply = new Reply(200, this.server.state(), x.url);
        else if (x.method === "POST" && x.url.startsWith("/set-position/"))
          x.reply = new Reply(this.server.move(decodeURIComponent(x.url.slice(14)).toUpperCase(), x.body), "", x.url);
        else {
          this.bad ??= `unexpected request ${x.method} ${x.url}`;
          x.reply = new Reply(404, "", x.url);
        }
        break;
      case "resp":
        x.done = true;
        x.resolve(x.reply);
        break;
      case "user":
        await this.user(this.sc.user[this.acted++]);
        break;
      case "frame":
        b.clear(x.id);
        try {
          x.run();
        } catch (e) {
          b.error(e);
        }
        break;
      case "timer":
        this.timers++;
        b.fire();
        break;
    }
    await tick();
  }

  /** Whether the page shows the scene, everything having arrived. */
  async judge() {
    const say = (what) => {
      this.bad ??= what + `; the scene is ${this.server.state()}`;
    };
    const at = (d) => `${-d.x + d.y} ${d.z - d.y}`;
    const scene = [...this.server.scene.values()];
    const markers = this.markers();
    const list = (v) => v.slice().sort().join(", ");
    if (list(markers.map((m) => `${m.a} ${m.b}`)) !== list(scene.map(at)))
      return say(`the map shows devices at ${list(markers.map((m) => `${m.a} ${m.b}`))} instead of ${list(scene.map(at))}`);
    const same = (p, what) => {
      const d = this.server.scene.get(p.mac);
      if (!d) return say(`${what}: the panel shows ${JSON.stringify(p)}`);
      for (const k of ["x", "y", "z", "yaw", "pitch", "roll"])
        if (p[k] !== d[k]) return say(`${what}: the panel shows ${JSON.stringify(p)}`);
      for (const l of p.sliders) if (l.at !== l.shown) return say(`${what}: the slider of ${l.shown} is at ${l.at}`);
      const drawn = (a, yaw, pitch) => !a || (a.yaw === yaw && a.pitch === pitch);
      if (!drawn(p.arrow, p.yaw, p.pitch)) return say(`${what}: the arrows drawn are at ${JSON.stringify(p.arrow)}`);
      for (const n of p.near)
        if (!drawn(n.arrow, -n.azimuth, n.elevation)) return say(`${what}: the arrows of ${n.mac} are at ${JSON.stringify(n.arrow)}`);
      const since = Math.min(...this.sources.filter((s) => s.readyState === 1).map((s) => s.since));
      for (const o of scene) {
        const n = p.near.filter((x) => x.mac?.toUpperCase() === o.mac_address);
        const t = this.server.last.get(p.mac + " " + o.mac_address);
        if (n.length > 1) return say(`${what}: neighbor ${o.mac_address} is shown twice`);
        if (t && t.at >= since && !n.length) return say(`${what}: neighbor ${o.mac_address} is missing`);
        if (n.length && (!t || ["distance", "azimuth", "elevation"].some((k) => n[0][k] !== t[k])))
          return say(`${what}: neighbor ${JSON.stringify(n[0])} instead of ${JSON.stringify(t)}`);
      }
      if (p.near.some((x) => !this.server.scene.has(x.mac?.toUpperCase())))
        return say(`${what}: neighbors ${JSON.stringify(p.near)}`);
    };
    const p = this.panel();
    const sel = markers.filter((m) => m.selected);
    if (p) same(p, "at the end");
    if (p && this.server.scene.has(p.mac) && !(sel.length === 1 && `${sel[0].a} ${sel[0].b}` === at(this.server.scene.get(p.mac))))
      say(`${p.mac} is selected, the map marks ${sel.length} devices`);
    if (!p && sel.length) say("the map marks a device, none is selected");
    if (this.bad) return;
    // Every device, clicked.
    const seen = new Set();
    for (let i = 0; i < markers.length && !this.bad; i++) {
      const m = this.markers()[i];
      await this.select(m);
      const q = this.panel();
      if (!q) return say(`the marker at ${m.a} ${m.b} was clicked: nothing is selected`);
      if (seen.has(q.mac)) return say(`two markers for ${q.mac}`);
      seen.add(q.mac);
      same(q, "clicked");
      await this.mouseup();
    }
  }

  /** Runs a schedule: for each step the index of its choice (0 beyond). Returns the number of choices of each step. */
  async execute(choices, verbose) {
    const widths = [];
    const taken = [];
    await this.start();
    let block = null;
    for (let step = 0; step < 400; step++) {
      const all = this.enabled();
      // A step of the page that was possible before the server's last steps
      // is explored there.
      let can = block ? all.filter((x) => x[2] || !block.has(x[0])) : all;
      const must = can.filter((x) => !x[3]);
      const end = !all.some((x) => !x[3]);
      if (!must.length && !end) {
        // Covered by another order.
        this.pruned = true;
        break;
      }
      if (end) can = [null, ...can];
      const i = choices[step] ?? 0;
      widths.push(can.length);
      taken.push(i);
      const c = can[i];
      if (!c) break;
      if (verbose) this.log.push(c[0] + (c[1][0] === "ev" ? " " + (c[1][1].queue[0].name ?? (c[1][1].queue[0].open ? "open" : "error")) + " " + (c[1][1].queue[0].data ?? "") : ""));
      if (c[2]) block ??= new Set(all.filter((x) => !x[2]).map((x) => x[0]));
      else block = null;
      await this.act(c[1]);
      if (this.bad) break;
    }
    if (!this.bad && !this.pruned) await this.judge();
    return { widths, taken };
  }
}
