// Runs the web page of the repository with stand-ins for lit and the browser.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";

const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");

export function check(ok, what) {
  if (!ok) {
    console.log("DEMO: property broken: " + what);
    process.exit(1);
  }
}

class Target {
  l = {};
  addEventListener(t, f) {
    (this.l[t] ??= []).push(f);
  }
  removeEventListener() {}
  dispatchEvent(e) {
    for (const f of this.l[e.type] ?? []) f.call(this, e);
  }
}

/** An element of rendered markup. */
class El {
  constructor(tag, up) {
    Object.assign(this, { tag, up, attrs: {}, kids: [], on: {} });
  }
  get classList() {
    const v = (this.attrs.class ?? "").split(/\s+/);
    return { contains: (c) => v.includes(c) };
  }
  get children() {
    return this.kids.filter((k) => k instanceof El);
  }
  getAttribute(k) {
    return this.attrs[k] ?? null;
  }
  all() {
    return this.children.flatMap((c) => [c, ...c.all()]);
  }
  querySelectorAll(s) {
    return this.all().filter((e) => (s[0] === "." ? e.classList.contains(s.slice(1)) : e.tag === s));
  }
  querySelector(s) {
    return this.querySelectorAll(s)[0];
  }
  get text() {
    return this.kids.map((k) => (k instanceof El ? k.text : k)).join(" ");
  }
  createSVGPoint() {
    return { matrixTransform() { return { x: this.x, y: this.y }; } };
  }
  getScreenCTM() {
    return { inverse() {} };
  }
}

/** Markup, with the values of a template, under an element. */
function build(t, root, host) {
  let text = t.s.reduce((a, s, i) => a + (i ? `\u0001${i - 1}\u0001` : "") + s);
  text = text.replace(/<!--.*?-->/gs, "");
  let el = root;
  const put = (v) => {
    if (v === null || v === undefined || v === "") return;
    if (v.s) build(v, el, host);
    else if (Array.isArray(v)) v.forEach(put);
    else el.kids.push(String(v));
  };
  for (const m of text.matchAll(/<\/([\w-]+)\s*>|<([\w-]+)((?:\s+[^\s=>\/]+(?:=(?:"[^"]*"|\u0001\d+\u0001|[^\s>]*))?)*)\s*(\/?)>|([^<]+)/g)) {
    if (m[5]) m[5].split(/\u0001(\d+)\u0001/).forEach((p, i) => (i % 2 ? put(t.v[p]) : p.trim() && el.kids.push(p.trim())));
    else if (m[2]) {
      const e = new El(m[2].toLowerCase(), el);
      for (const a of m[3].matchAll(/([^\s=>\/]+)(?:=(?:"([^"]*)"|(\u0001\d+\u0001)|[^\s>]*))?/g)) {
        const raw = a[2] ?? a[3] ?? "";
        const one = /^\u0001(\d+)\u0001$/.exec(raw);
        if (a[1][0] === "@") e.on[a[1].slice(1)] = t.v[one[1]].bind(host);
        else e.attrs[a[1]] = raw.replace(/\u0001(\d+)\u0001/g, (_, i) => t.v[i]);
      }
      el.kids.push(e);
      if (!m[4] && e.tag !== "input") el = e;
    } else {
      let e = el;
      while (e !== root && e.tag !== m[1].toLowerCase()) e = e.up;
      if (e !== root) el = e.up;
    }
  }
}

export class Page {
  static async open(devices) {
    const p = new Page();
    p.requests = [];
    const parts = {};
    class LitElement extends Target {
      constructor() {
        super();
        for (const k of Object.keys(this.constructor.properties ?? {}))
          Object.defineProperty(this, k, { get: () => this["_" + k], set: (v) => { this["_" + k] = v; this.requestUpdate(); } });
        this.requestUpdate();
      }
      connectedCallback() {}
      disconnectedCallback() {}
      requestUpdate() {
        if (!this.due) queueMicrotask(() => this.due && this.update());
        this.due = true;
      }
      update() {
        this.due = false;
        this.renderRoot = new El("root", null);
        build(this.render(), this.renderRoot, this);
      }
    }
    const template = (s, ...v) => ({ s, v });
    const lit = { LitElement, html: template, svg: template, css: () => "", unsafeCSS: () => "" };
    const source = new Target();
    const window = new Target();
    const matrix = class { rotateAxisAngleSelf() {} scaleSelf() {} };
    class CustomEvent { constructor(type, init) { this.type = type; this.detail = init?.detail; } }
    const scope = {
      CustomEvent, window, DOMMatrix: matrix, console: { log() {} }, queueMicrotask, setTimeout, URL,
      EventSource: function () { return source; },
      document: { getElementById: (id) => parts[id] },
      customElements: {
        define: (tag, cls) => {
          const id = { "pika-map": "map", "pika-device-info": "info" }[tag];
          if (id) (parts[id] = new cls()).connectedCallback();
        },
      },
      fetch: async (url, init) => {
        p.requests.push({ url, ...init });
        return { ok: true, status: 200, json: async () => ({ devices: devices.map((d) => p.device(...d)) }) };
      },
    };
    scope.globalThis = scope;
    const context = vm.createContext(scope);
    const dir = path.join(process.argv[2], "static");
    const loaded = { lit };
    const run = (text, name) => {
      const { code } = esbuild.transformSync(text, { format: "cjs" });
      const m = { exports: {} };
      const require = (s) => {
        const f = s === "lit" ? s : path.join(path.dirname(name), s);
        return (loaded[f] ??= run(fs.readFileSync(f, "utf8"), f));
      };
      vm.runInContext(`(function (require, module, exports) {${code}\n})`, context)(require, m, m.exports);
      return m.exports;
    };
    const html = fs.readFileSync(path.join(dir, "index.html"), "utf8");
    run(/<script type="module">(.*?)<\/script>/s.exec(html)[1], path.join(dir, "index.html"));
    Object.assign(p, { parts, source, window });
    source.dispatchEvent({ type: "open" });
    window.dispatchEvent({ type: "load" });
    await p.tick();
    return p;
  }
  device(mac_address, x, y, z, yaw, pitch, roll) {
    return { category: "Anchor", mac_address, x, y, z, yaw, pitch, roll };
  }
  tick() {
    return new Promise((r) => setTimeout(r, 5));
  }
  map() {
    return this.parts.map.renderRoot;
  }
  info() {
    return this.parts.info.renderRoot;
  }
  panel() {
    return " " + this.info().text.replace(/\s+/g, " ").replace(/Orientation/g, "") + " ";
  }
  async event(type, data) {
    this.source.dispatchEvent({ type, data: JSON.stringify(data) });
    await this.tick();
  }
  mouse(el, type, more = {}) {
    const path = [];
    for (let e = el; e; e = e.up) path.push(e);
    const event = { type, target: el, clientX: 0, clientY: 0, movementY: 0, composedPath: () => path, ...more };
    for (const e of path) e.on?.[type]?.(event);
  }
  async up() {
    this.window.dispatchEvent({ type: "mouseup" });
    await this.tick();
  }
  /** Clicks the n-th marker. */
  async click(n) {
    this.mouse(this.map().querySelectorAll(".marker")[n].children[0], "mousedown");
    await this.tick();
    await this.up();
  }
}
