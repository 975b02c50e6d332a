// A fake browser: clock, DOM, sockets; and a loader for the client's sources, bundled from /repo.
"use strict";
const esbuild = require("esbuild");
const path = require("path");
const makePreact = require("./preact.js");
const PK = "/repo/src/js/packages/";
const realImmediate = setImmediate;

function bundle(entry, external = []) {
  const r = esbuild.buildSync({
    entryPoints: [entry], bundle: true, write: false, format: "cjs", platform: "node", target: "es2022", logLevel: "error",
    external: ["preact", "preact/*", "json-pointer", "react", "react-dom/client", ...external], alias: { "event-to-object": PK + "event-to-object/src/index.ts" },
    supported: { "dynamic-import": false }, jsx: "automatic", jsxImportSource: "preact", keepNames: false, tsconfigRaw: "{}", logOverride: { "direct-eval": "silent" },
  });
  return r.outputFiles[0].text;
}

class Clock {
  constructor() { this.now = 1_000_000; this.list = []; this.n = 0; }
  set(fn, ms, args) { const t = { at: this.now + Math.max(0, Number(ms) || 0), n: ++this.n, fn: () => fn(...(args || [])), ms }; this.list.push(t); return t.n; }
  clear(id) { this.list = this.list.filter((t) => t.n !== id); }
  next() { let b = null; for (const t of this.list) if (!b || t.at < b.at || (t.at === b.at && t.n < b.n)) b = t; return b; }
}

function settle() { return new Promise((r) => realImmediate(r)); }

// RFC 6901 as json-pointer's set() does it
function setPointer(obj, pointer, value) {
  if (Array.isArray(pointer) ? pointer.length === 0 : pointer === "") throw new Error("Can not set the root document");
  const tokens = Array.isArray(pointer) ? pointer : (() => {
    if (pointer[0] !== "/") throw new Error("Invalid JSON pointer: " + pointer);
    return pointer.substring(1).split("/").map((s) => s.replace(/~1/g, "/").replace(/~0/g, "~"));
  })();
  if (typeof obj !== "object" || obj === null) throw new Error("not an object");
  let nextTok = tokens[0];
  for (let i = 0; i < tokens.length - 1; i++) {
    let tok = tokens[i];
    if (typeof tok !== "string" && typeof tok !== "number") tok = String(tok);
    if (tok === "__proto__" || tok === "constructor" || tok === "prototype") continue;
    if (tok === "-" && Array.isArray(obj)) tok = obj.length;
    nextTok = tokens[i + 1];
    if (!(tok in obj)) obj[tok] = nextTok.match(/^(\d+|-)$/) ? [] : {};
    obj = obj[tok];
  }
  if (nextTok === "-" && Array.isArray(obj)) nextTok = obj.length;
  obj[nextTok] = value;
}
function getPointer(obj, pointer) {
  const tokens = Array.isArray(pointer) ? pointer : pointer === "" ? [] : pointer.substring(1).split("/").map((s) => s.replace(/~1/g, "/").replace(/~0/g, "~"));
  for (const t of tokens) {
    if (!(typeof obj === "object" && obj !== null && t in obj)) throw new Error("Invalid reference token: " + t);
    obj = obj[t];
  }
  return obj;
}
const POINTER = { set: setPointer, get: getPointer, has(o, p) { try { getPointer(o, p); return true; } catch { return false; } } };

function makeWorld(opts = {}) {
  const clock = new Clock();
  const w = { clock, errors: [], effectDelay: opts.effectDelay ?? 0, log: [] };
  w.setTimeout = (f, ms, ...a) => clock.set(f, ms, a);
  w.clearTimeout = (id) => clock.clear(id);
  let ids = 0;

  class FNode {
    constructor() { this.childNodes = []; this.parentNode = null; this.id_ = ++ids; }
    get nextSibling() { const p = this.parentNode; if (!p) return null; return p.childNodes[p.childNodes.indexOf(this) + 1] || null; }
    get firstChild() { return this.childNodes[0] || null; }
    get isConnected() { for (let n = this; n; n = n.parentNode) if (n === w.body) return true; return false; }
    appendChild(n) { return this.insertBefore(n, null); }
    insertBefore(n, at) {
      // moving a node disconnects and connects it
      if (n.isConnected) connected(n, false);
      if (n.parentNode) n.parentNode.childNodes.splice(n.parentNode.childNodes.indexOf(n), 1);
      const i = at ? this.childNodes.indexOf(at) : this.childNodes.length;
      if (i < 0) throw new Error("NotFoundError");
      this.childNodes.splice(i, 0, n); n.parentNode = this;
      if (n.isConnected) connected(n, true);
      return n;
    }
    removeChild(n) {
      const i = this.childNodes.indexOf(n);
      if (i < 0) throw new Error("NotFoundError: The node to be removed is not a child of this node.");
      const was = n.isConnected;
      this.childNodes.splice(i, 1); n.parentNode = null;
      if (was) connected(n, false);
      return n;
    }
  }
  // the callbacks of a whole tree are enqueued before the first one is called
  function connected(n, on) {
    const all = [];
    const walk = (x) => { all.push(x); x.childNodes.forEach(walk); };
    walk(n);
    for (const x of all) {
      const f = on ? x.connectedCallback : x.disconnectedCallback;
      if (f) f.call(x);
    }
  }
  class Text extends FNode { constructor(d) { super(); this.data = d; } }
  class HTMLElement extends FNode {
    constructor() { super(); this.props = {}; this.attrs = {}; this.style = {}; }
    setAttribute(k, v) { this.attrs[k] = String(v); }
    getAttribute(k) { return this.attrs[k] ?? null; }
  }
  class HTMLInputElement extends HTMLElement {
    constructor() { super(); this.v = ""; this.writes = []; this.checked = false; }
    get value() { return this.v; }
    set value(x) { this.v = x === null ? "" : String(x); this.writes.push([clock.now, this.v]); }
    type_(x) { this.v = x; }
  }
  // like native objects, events do not work through a Proxy
  class Event_ { #native = true; constructor(type) { this.type = type; this.defaultPrevented = false; this.stopped = false; this.currentTarget = null; this.target = null; } preventDefault() { this.#native; this.defaultPrevented = true; } stopPropagation() { this.#native; this.stopped = true; } }
  const defs = new Map();
  w.customElements = { get: (n) => defs.get(n), define: (n, c) => defs.set(n, c) };
  w.document = {
    createElement(t) {
      const C = defs.get(t) || (["input", "select", "textarea"].includes(t) ? HTMLInputElement : HTMLElement);
      const e = new C(); e.tagName = t; return e;
    },
    createTextNode: (d) => new Text(d),
  };
  Object.assign(w, { FNode, Text, HTMLElement, HTMLInputElement, Event: Event_ });
  w.body = w.document.createElement("body");
  w.location = { pathname: "/", search: "", protocol: "http:", host: "h:1", origin: "http://h:1", ...(opts.location || {}) };
  w.window = { setTimeout: w.setTimeout, clearTimeout: w.clearTimeout, location: w.location, Event: Event_, document: w.document };
  w.preact = makePreact(w);
  w.imports = {};

  // dispatch an event to the handlers given as properties, bubbling
  w.fire = (el, prop, ev) => {
    ev.target = el;
    let n = 0;
    for (let p = el; p; p = p.parentNode) {
      const h = p.props && p.props[prop];
      if (typeof h === "function") {
        ev.currentTarget = p;
        n++;
        try { h.call(p, ev); } catch (e) { w.errors.push("handler: " + (e && e.stack || e)); }
        if (ev.stopped) break;
      }
    }
    return n;
  };
  w.settle = settle;
  w.advance = async (ms) => {
    const end = clock.now + ms;
    await settle();
    for (let n = 0; ; n++) {
      if (n > 20000) { w.errors.push("timers never end"); return; }
      const t = clock.next();
      if (!t || t.at > end) break;
      clock.now = Math.max(clock.now, t.at);
      clock.clear(t.n);
      try { t.fn(); } catch (e) { w.errors.push("timer: " + (e && e.stack || e)); }
      await settle();
    }
    clock.now = end;
  };
  class FDate { static now() { return clock.now; } }
  w.Date = FDate;
  w.console = { log() {}, info() {}, debug() {}, warn: (...a) => w.log.push(["warn", a.map(String).join(" ")]), error: (...a) => w.log.push(["error", a.map(String).join(" ")]) };

  w.load = (fn) => {
    const req = (name) => {
      switch (name) {
        case "preact": return { __esModule: true, ...w.preact.api };
        case "preact/hooks": return { __esModule: true, ...w.preact.hooks };
        case "preact/jsx-runtime": return { __esModule: true, ...w.preact.api };
        case "preact/compat": return { __esModule: true, ...w.preact.api, ...w.preact.hooks, default: w.preact.api };
        case "json-pointer": return { __esModule: true, ...POINTER, default: POINTER };
      }
      if (name in w.imports) { const m = w.imports[name]; if (m instanceof Error) throw m; return m; }
      throw new Error("Cannot find module " + name);
    };
    const module = { exports: {} };
    const P = { require: req, module, exports: module.exports, window: w.window, document: w.document, Date: FDate, setTimeout: w.setTimeout, clearTimeout: w.clearTimeout, customElements: w.customElements,
      HTMLElement, Event: Event_, WebSocket: w.WebSocket, console: w.console, Node: FNode, Window: class Window {}, Document: class Document {}, CSSStyleSheet: class CSSStyleSheet {}, CSSStyleDeclaration: class CSSStyleDeclaration {}, HTMLFormElement: class HTMLFormElement {}, queueMicrotask, globalThis: w.window, ...(w.globals || {}) };
    fn(...NAMES.map((n) => P[n]));
    return module.exports;
  };
  return w;
}
const NAMES = ["require", "module", "exports", "window", "document", "Date", "setTimeout", "clearTimeout", "customElements", "HTMLElement", "Event", "WebSocket", "console", "Node", "Window", "Document", "CSSStyleSheet", "CSSStyleDeclaration", "HTMLFormElement", "queueMicrotask", "globalThis"];
const compile = (code) => new Function(...NAMES, code);

function serve(handler) {
  const rl = require("readline").createInterface({ input: process.stdin });
  let chain = Promise.resolve();
  rl.on("line", (line) => {
    chain = chain.then(async () => {
      let out;
      try { out = await handler(JSON.parse(line)); } catch (e) { out = { crash: String(e && e.stack || e) }; }
      process.stdout.write(JSON.stringify(out) + "\n");
    });
  });
  rl.on("close", () => process.exit(0));
}
process.on("unhandledRejection", (e) => { (global.__rejections ||= []).push(String(e && e.stack || e)); });

module.exports = { bundle, compile, makeWorld, serve, settle, setPointer, CLIENT: PK + "@reactpy/client/src/index.ts", E2O: PK + "event-to-object/src/index.ts" };
