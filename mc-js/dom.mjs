// A small DOM and the part of lit the web page uses: enough to run the page's
// own modules and to look at what they show. Nothing is drawn.

const VOID = new Set(["input", "link", "meta", "br", "img", "hr", "area", "base", "col", "embed", "source", "track", "wbr"]);
const MARK = /\u0001(\d+)\u0002/;

/** Markup -> skeleton nodes: strings, and {tag, attrs, kids}. */
function parse(text) {
  const root = { tag: "#root", attrs: [], kids: [] };
  const stack = [root];
  let i = 0;
  const top = () => stack[stack.length - 1];
  while (i < text.length) {
    if (text[i] !== "<") {
      let e = text.indexOf("<", i);
      if (e < 0) e = text.length;
      top().kids.push(text.slice(i, e));
      i = e;
      continue;
    }
    if (text.startsWith("<!--", i)) {
      const e = text.indexOf("-->", i);
      i = e < 0 ? text.length : e + 3;
      continue;
    }
    const close = /^<\/\s*([^\s>]+)\s*>/.exec(text.slice(i));
    if (close) {
      const at = stack.map((n) => n.tag).lastIndexOf(close[1].toLowerCase());
      if (at > 0) stack.length = at;
      i += close[0].length;
      continue;
    }
    const open = /^<([a-zA-Z][^\s/>]*)/.exec(text.slice(i));
    if (!open) {
      top().kids.push("<");
      i++;
      continue;
    }
    const node = { tag: open[1].toLowerCase(), attrs: [], kids: [] };
    i += open[0].length;
    let closed = false;
    for (;;) {
      const rest = text.slice(i);
      let m;
      if ((m = /^\s+/.exec(rest))) i += m[0].length;
      else if ((m = /^\/?>/.exec(rest))) {
        i += m[0].length;
        closed = m[0] === "/>";
        break;
      } else if ((m = /^([^\s=>/]+)(\s*=\s*("[^"]*"|'[^']*'|[^\s>]*))?/.exec(rest))) {
        let v = m[3] ?? "";
        if (/^["']/.test(v)) v = v.slice(1, -1);
        node.attrs.push([m[1], v]);
        i += m[0].length;
      } else if (rest) i++;
      else break;
    }
    top().kids.push(node);
    if (node.tag === "script" || node.tag === "style") {
      const e = text.indexOf("</" + node.tag, i);
      node.kids.push(text.slice(i, e < 0 ? text.length : e));
      i = e < 0 ? text.length : text.indexOf(">", e) + 1;
    } else if (!closed && !VOID.has(node.tag)) stack.push(node);
  }
  return root.kids;
}

const pages = new globalThis.Map();

class Emitter {
  addEventListener(type, fn, opts) {
    if (!fn) return;
    const l = (this.__l ??= {});
    const list = (l[type] ??= []);
    if (!list.some((x) => x.fn === fn)) list.push({ fn, once: !!opts?.once });
  }
  removeEventListener(type, fn) {
    const list = this.__l?.[type];
    if (list) this.__l[type] = list.filter((x) => x.fn !== fn);
  }
  __fire(event) {
    const all = [...(this.__l?.[event.type] ?? [])];
    const on = this["on" + event.type];
    if (typeof on === "function") all.push({ fn: on });
    event.currentTarget = this;
    for (const x of all) {
      if (x.once) this.removeEventListener(event.type, x.fn);
      try {
        if (typeof x.fn === "function") x.fn.call(x.self ?? this, event);
        else x.fn.handleEvent(event);
      } catch (e) {
        this.__browser?.error(e);
      }
      if (event.__now) break;
    }
  }
  dispatchEvent(event) {
    const path = [];
    for (let n = this; n; n = n.__up) path.push(n);
    event.target ??= this;
    event.__path = path;
    for (const n of event.bubbles ? path : path.slice(0, 1)) {
      n.__fire(event);
      if (event.__stop) break;
    }
    return !event.defaultPrevented;
  }
}

class Event {
  constructor(type, init = {}) {
    this.type = type;
    this.bubbles = !!init.bubbles;
    this.cancelable = !!init.cancelable;
    this.composed = !!init.composed;
    this.defaultPrevented = false;
    this.target = undefined;
    this.timeStamp = 0;
  }
  composedPath() {
    return this.__path ?? [];
  }
  preventDefault() {
    this.defaultPrevented = true;
  }
  stopPropagation() {
    this.__stop = true;
  }
  stopImmediatePropagation() {
    this.__stop = this.__now = true;
  }
}
class CustomEvent extends Event {
  constructor(type, init = {}) {
    super(type, init);
    this.detail = init.detail ?? null;
  }
}
class MessageEvent extends Event {
  constructor(type, init = {}) {
    super(type, init);
    this.data = init.data;
    this.lastEventId = "";
  }
}

class ClassList {
  constructor(node) {
    this.node = node;
  }
  get list() {
    return (this.node.getAttribute("class") ?? "").split(/\s+/).filter(Boolean);
  }
  contains(c) {
    return this.list.includes(c);
  }
  add(c) {
    if (!this.contains(c)) this.node.setAttribute("class", [...this.list, c].join(" "));
  }
  remove(c) {
    this.node.setAttribute("class", this.list.filter((x) => x !== c).join(" "));
  }
  toggle(c, on = !this.contains(c)) {
    on ? this.add(c) : this.remove(c);
    return on;
  }
}

class Node_ extends Emitter {
  tagName = "";
  __attrs = new globalThis.Map();
  __kids = [];
  __todo = null;
  __up = null;
  /** Rendered when looked at. */
  get childNodes() {
    if (this.__todo) {
      const f = this.__todo;
      this.__todo = null;
      f();
    }
    return this.__kids;
  }
  set childNodes(v) {
    this.__todo = null;
    this.__kids = v;
  }
  get classList() {
    return new ClassList(this);
  }
  get style() {
    return (this.__style ??= { setProperty() {} });
  }
  get dataset() {
    return (this.__data ??= {});
  }
  get id() {
    return this.getAttribute("id") ?? "";
  }
  get children() {
    return this.childNodes.filter((c) => typeof c !== "string");
  }
  get firstElementChild() {
    return this.children[0] ?? null;
  }
  get parentNode() {
    return this.__up;
  }
  get parentElement() {
    return this.__up;
  }
  getAttribute(k) {
    return this.__attrs.get(k) ?? null;
  }
  hasAttribute(k) {
    return this.__attrs.has(k);
  }
  setAttribute(k, v) {
    this.__attrs.set(k, String(v));
    if (k.startsWith("data-"))
      this.dataset[k.slice(5).replace(/-(.)/g, (_, c) => c.toUpperCase())] = String(v);
    if (k === "value") this.value = String(v);
    this.attributeChangedCallback?.(k, null, String(v));
  }
  removeAttribute(k) {
    this.__attrs.delete(k);
  }
  get textContent() {
    return this.childNodes.map((c) => (typeof c === "string" ? c : c.textContent)).join("");
  }
  __all() {
    return this.children.flatMap((c) => [c, ...c.__all()]);
  }
  matches(sel) {
    return sel.split(",").some((s) => {
      const parts = s.trim().match(/^[\w-]+|[.#][\w-]+|\[[^\]]+\]/g) ?? [];
      return parts.every((p) =>
        p[0] === "."
          ? this.classList.contains(p.slice(1))
          : p[0] === "#"
            ? this.id === p.slice(1)
            : p[0] === "["
              ? (([k, v]) => (v === undefined ? this.hasAttribute(k) : this.getAttribute(k) === v))(
                  p.slice(1, -1).replace(/["']/g, "").split("="),
                )
              : this.tagName === p.toLowerCase(),
      );
    });
  }
  closest(sel) {
    for (let n = this; n; n = n.__up) if (n.matches?.(sel)) return n;
    return null;
  }
  querySelectorAll(sel) {
    return this.__all().filter((n) => n.matches(sel.trim().split(/\s+/).pop()));
  }
  querySelector(sel) {
    return this.querySelectorAll(sel)[0] ?? null;
  }
  contains(n) {
    return n === this || this.__all().includes(n);
  }
  // Screen and drawing coordinates are the same.
  createSVGPoint() {
    return new Point();
  }
  getScreenCTM() {
    return new Matrix();
  }
  getBoundingClientRect() {
    return { x: 0, y: 0, left: 0, top: 0, width: 1200, height: 1200, right: 1200, bottom: 1200 };
  }
  setPointerCapture() {}
  releasePointerCapture() {}
  focus() {}
  blur() {}
}

class Point {
  constructor(x = 0, y = 0) {
    this.x = x;
    this.y = y;
  }
  matrixTransform() {
    return new Point(this.x, this.y);
  }
}
class Matrix {
  constructor() {
    Object.assign(this, { a: 1, b: 0, c: 0, d: 1, e: 0, f: 0 });
  }
  inverse() {
    return this;
  }
  toString() {
    return "matrix(1, 0, 0, 1, 0, 0)";
  }
  transformPoint(p) {
    return new Point(p.x, p.y);
  }
}
for (const k of ["rotateAxisAngle", "rotate", "scale", "translate", "multiply", "scale3d", "skewX", "skewY", "invert"]) {
  Matrix.prototype[k] = Matrix.prototype[k + "Self"] = function () {
    return this;
  };
}

/** Everything one browser tab has; a fresh one for every execution. */
export class Browser {
  constructor() {
    this.errors = [];
    this.instances = [];
    this.registry = new globalThis.Map();
    const browser = this;

    class HTMLElement extends Node_ {
      constructor() {
        super();
        this.__browser = browser;
        this.isConnected = false;
      }
      connectedCallback() {}
      disconnectedCallback() {}
      attachShadow() {
        const r = new Node_();
        r.tagName = "#shadow";
        r.__up = this;
        r.host = this;
        return (this.shadowRoot = r);
      }
    }

    const noChange = Symbol("noChange");
    const nothing = Symbol("nothing");
    const template = (strings, ...values) => ({ strings, values, _$litType$: 1 });
    const cache = new WeakMap();

    const fill = (value, parent, host) => {
      if (value === null || value === undefined || value === "" || value === nothing || value === noChange) return;
      if (value._$litType$) {
        let sk = cache.get(value.strings);
        if (!sk) {
          sk = parse(value.strings.reduce((a, s, i) => a + (i ? `\u0001${i - 1}\u0002` : "") + s, ""));
          cache.set(value.strings, sk);
        }
        build(sk, value.values, parent, host);
      } else if (value instanceof Node_) parent.childNodes.push(value);
      else if (typeof value !== "string" && typeof value[Symbol.iterator] === "function")
        for (const v of value) fill(v, parent, host);
      else parent.childNodes.push(String(value));
    };
    const text = (v) => (v === null || v === undefined || v === nothing ? "" : String(v));
    const build = (skeleton, values, parent, host) => {
      for (const n of skeleton) {
        if (typeof n === "string") {
          n.split(/(\u0001\d+\u0002)/).forEach((part) => {
            const m = MARK.exec(part);
            if (m) fill(values[m[1]], parent, host);
            else if (part) parent.childNodes.push(part);
          });
          continue;
        }
        const cls = browser.registry.get(n.tag);
        const el = cls ? new cls() : new Node_();
        el.tagName = n.tag;
        el.__up = parent;
        el.__browser = browser;
        el.__skeleton = n;
        for (const [k, raw] of n.attrs) {
          const single = /^\u0001(\d+)\u0002$/.exec(raw);
          const val = single ? values[single[1]] : undefined;
          if (k[0] === "@") {
            if (val && val !== nothing) {
              const l = typeof val === "function" ? { fn: val, self: host } : { fn: val };
              ((el.__l ??= {})[k.slice(1)] ??= []).push(l);
            }
          } else if (k[0] === ".") {
            el[k.slice(1)] = val;
            if (k === ".value") el.__bound = val;
          }
          else if (k[0] === "?") {
            if (val && val !== nothing) el.setAttribute(k.slice(1), "");
          } else if (single && val === nothing) continue;
          else
            el.setAttribute(
              k,
              raw
                .split(/(\u0001\d+\u0002)/)
                .map((p) => {
                  const m = MARK.exec(p);
                  return m ? text(values[m[1]]) : p;
                })
                .join(""),
            );
        }
        parent.childNodes.push(el);
        build(n.kids, values, el, host);
        if (cls) browser.connect(el);
      }
    };
    // What the user entered in a control stays there as long as the control
    // does: its attributes do not matter any more, its properties do when the
    // value bound to them changes.
    const keep = (from, to) => {
      const old = from.children, now = to.children;
      for (let i = 0; i < old.length && i < now.length; i++) {
        if (old[i].__skeleton !== now[i].__skeleton) continue;
        if (old[i].__typed) {
          now[i].__typed = true;
          if (old[i].__bound === now[i].__bound) now[i].value = old[i].value;
        }
        keep(old[i], now[i]);
      }
    };
    const render = (value, root, options) => {
      if (root.__typed) {
        const old = { children: root.children };
        root.childNodes = [];
        fill(value, root, options?.host);
        keep(old, root);
        return;
      }
      root.childNodes = [];
      root.__todo = () => fill(value, root, options?.host);
    };

    class ReactiveElement extends HTMLElement {
      static __finalize() {
        if (Object.hasOwn(this, "__props")) return;
        const up = Object.getPrototypeOf(this);
        up.__finalize?.();
        this.__props = new globalThis.Map(up.__props ?? []);
        const own = Object.hasOwn(this, "properties") ? this.properties : {};
        for (const [k, o] of Object.entries(own)) {
          this.__props.set(k, o);
          Object.defineProperty(this.prototype, k, {
            configurable: true,
            enumerable: true,
            get() {
              return this["__v_" + k];
            },
            set(v) {
              const old = this["__v_" + k];
              this["__v_" + k] = v;
              this.requestUpdate(k, old, o);
            },
          });
        }
      }
      constructor() {
        super();
        this.constructor.__finalize();
        this._$changed = new globalThis.Map();
        this.isUpdatePending = false;
        this.hasUpdated = false;
        this.__enabled = new Promise((r) => (this.__enable = r));
        this.__promise = this.__enabled;
        browser.instances.push(this);
        this.requestUpdate();
      }
      attributeChangedCallback(k, _, v) {
        for (const [p, o] of this.constructor.__props ?? []) {
          const name = o?.attribute === undefined || o.attribute === true ? p.toLowerCase() : o.attribute;
          if (name !== k) continue;
          const t = o?.type;
          this[p] = t === Number ? Number(v) : t === Boolean ? v !== null : t === Object || t === Array ? JSON.parse(v) : v;
        }
      }
      createRenderRoot() {
        return this.shadowRoot ?? this.attachShadow({ mode: "open" });
      }
      connectedCallback() {
        this.renderRoot ??= this.createRenderRoot();
        this.__enable();
      }
      addController() {}
      requestUpdate(name, old, options) {
        let should = true;
        if (name !== undefined) {
          const changed = options?.hasChanged ?? ((a, b) => a !== b && (a === a || b === b));
          if (changed(this[name], old)) {
            if (!this._$changed.has(name)) this._$changed.set(name, old);
          } else should = false;
        }
        if (!this.isUpdatePending && should) this.__promise = this.__enqueue();
      }
      async __enqueue() {
        this.isUpdatePending = true;
        await this.__promise;
        this.scheduleUpdate();
        return !this.isUpdatePending;
      }
      scheduleUpdate() {
        return this.performUpdate();
      }
      performUpdate() {
        if (!this.isUpdatePending) return;
        const changed = this._$changed;
        try {
          if (this.shouldUpdate(changed)) {
            this.willUpdate(changed);
            this.update(changed);
            if (!this.hasUpdated) {
              this.hasUpdated = true;
              this.firstUpdated(changed);
            }
            this.updated(changed);
          } else this.__mark();
        } catch (e) {
          this.__mark();
          browser.error(e);
        }
      }
      __mark() {
        this._$changed = new globalThis.Map();
        this.isUpdatePending = false;
      }
      get updateComplete() {
        return this.getUpdateComplete();
      }
      getUpdateComplete() {
        return this.__promise;
      }
      shouldUpdate() {
        return true;
      }
      willUpdate() {}
      firstUpdated() {}
      updated() {}
      update() {
        this.__mark();
      }
    }
    class LitElement extends ReactiveElement {
      update(changed) {
        const value = this.render();
        super.update(changed);
        if (this.renderRoot) render(value, this.renderRoot, { host: this });
      }
      render() {
        return noChange;
      }
    }
    const css = (s, ...v) => ({ cssText: s.reduce((a, x, i) => a + (i ? (v[i - 1]?.cssText ?? v[i - 1]) : "") + x, "") });
    this.lit = {
      LitElement, ReactiveElement, html: template, svg: template, css, noChange, nothing, render,
      unsafeCSS: (s) => ({ cssText: String(s) }),
      notEqual: (a, b) => a !== b && (a === a || b === b),
      isServer: false, defaultConverter: {}, supportsAdoptingStyleSheets: false,
    };

    const document = new Node_();
    document.__browser = this;
    document.readyState = "interactive";
    document.getElementById = (id) => document.__all().find((n) => n.id === id) ?? null;
    document.createElement = (tag) => {
      const cls = this.registry.get(tag);
      const el = cls ? new cls() : new HTMLElement();
      el.tagName = tag;
      return el;
    };
    document.visibilityState = "visible";
    document.hidden = false;
    this.document = document;
    this.window = new Emitter();
    this.window.__browser = this;
    this.globals = {
      document, HTMLElement, Event, CustomEvent, MessageEvent, EventTarget: Emitter, DOMMatrix: Matrix, DOMPoint: Point,
      Element: Node_, Node: Node_, customElements: {
        define: (tag, cls) => this.define(tag, cls),
        get: (tag) => this.registry.get(tag),
        whenDefined: (tag) =>
          this.registry.has(tag) ? Promise.resolve(this.registry.get(tag)) : new Promise((r) => (this.defined ??= []).push([tag, r])),
      },
      requestAnimationFrame: (f) => this.timer(() => f(0), 0, true),
      cancelAnimationFrame: (i) => this.clear(i),
      setTimeout: (f, ms = 0, ...a) => this.timer(() => f(...a), ms),
      clearTimeout: (i) => this.clear(i),
      setInterval: (f, ms = 0, ...a) => this.timer(() => f(...a), ms, false, true),
      clearInterval: (i) => this.clear(i),
      location: { href: "http://localhost:3000/", origin: "http://localhost:3000", host: "localhost:3000", protocol: "http:", pathname: "/" },
      addEventListener: (...a) => this.window.addEventListener(...a),
      removeEventListener: (...a) => this.window.removeEventListener(...a),
      dispatchEvent: (...a) => this.window.dispatchEvent(...a),
      console: { log() {}, debug() {}, info() {}, warn() {}, error() {}, group() {}, groupEnd() {}, table() {}, trace() {} },
      queueMicrotask, structuredClone, URL, URLSearchParams, AbortController, TextDecoder, TextEncoder,
      performance: { now: () => 0 },
      reportError: (e) => this.error(e),
    };
    this.timers = [];
    this.timerId = 0;
    this.clock = 0;
  }
  error(e) {
    this.errors.push(e?.stack ?? String(e));
  }
  timer(run, ms, frame = false, repeat = false) {
    const t = { id: ++this.timerId, at: this.clock + (Number(ms) || 0), run, frame, every: repeat ? Math.max(1, Number(ms) || 0) : 0 };
    this.timers.push(t);
    return t.id;
  }
  clear(i) {
    this.timers = this.timers.filter((t) => t.id !== i);
  }
  /** Runs the earliest timer. */
  fire() {
    const t = this.timers.reduce((a, b) => (b.at < a.at ? b : a));
    this.clock = t.at;
    if (t.every) t.at += t.every;
    else this.clear(t.id);
    try {
      t.run();
    } catch (e) {
      this.error(e);
    }
  }
  load(markup) {
    const add = (nodes, parent) => {
      for (const n of nodes) {
        if (typeof n === "string") {
          parent.childNodes.push(n);
          continue;
        }
        const el = new Node_();
        el.tagName = n.tag;
        el.__up = parent;
        el.__browser = this;
        for (const [k, v] of n.attrs) el.__attrs.set(k, v);
        parent.childNodes.push(el);
        add(n.kids, el);
      }
    };
    if (!pages.has(markup)) pages.set(markup, parse(markup));
    add(pages.get(markup), this.document);
    this.document.body = this.document;
  }
  connect(el) {
    el.isConnected = true;
    el.connectedCallback?.();
  }
  define(tag, cls) {
    this.registry.set(tag, cls);
    for (const old of this.document.querySelectorAll(tag)) {
      const el = new cls();
      el.tagName = tag;
      for (const [k, v] of old.__attrs) el.setAttribute(k, v);
      el.childNodes = old.childNodes;
      el.__up = old.__up;
      const list = old.__up.childNodes;
      list[list.indexOf(old)] = el;
      this.connect(el);
    }
    this.defined?.filter((d) => d[0] === tag).forEach((d) => d[1](cls));
  }
}
export { Event, CustomEvent, MessageEvent, Emitter };
