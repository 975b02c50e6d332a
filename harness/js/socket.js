// Drives the real client with a fake WebSocket, see checks/c22.py
"use strict";
const W = require("./world.js");
const code = W.compile(W.bundle(W.CLIENT));

function makeSockets(w) {
  const all = [];
  class WS {
    constructor(url) {
      this.url = String(url); this.readyState = 0; this.listeners = {}; this.sent = [];
      this.n = all.length; all.push(this); this.at = w.clock.now;
      w.oplog.push(["connect", this.n, w.clock.now, this.url, all.filter((s) => s !== this && s.readyState < 3).length]);
    }
    addEventListener(t, f, o) { (this.listeners[t] ||= []).push([f, o]); }
    removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter((x) => x[0] !== f); }
    emit(t, props = {}) {
      const ev = Object.assign(new w.Event(t), props, { target: this });
      const call = (f) => { try { f.call(this, ev); } catch (e) { w.errors.push(t + ": " + (e && e.stack || e)); } };
      if (typeof this["on" + t] === "function") call(this["on" + t]);
      for (const [f, o] of this.listeners[t] || []) { if (o && o.once) this.removeEventListener(t, f); call(typeof f === "function" ? f : f.handleEvent.bind(f)); }
    }
    send(data) {
      if (this.readyState === 0) { const e = new Error("InvalidStateError"); throw e; }
      if (this.readyState > 1) { w.oplog.push(["lost", this.n, data]); return; }
      w.oplog.push(["send", this.n, w.clock.now, data]);
      // the buffer is full: the connection closes
      if (this.full !== undefined && --this.full <= 0) { this.readyState = 2; this.closing = true; }
    }
    close() { if (this.readyState < 2) { this.readyState = 2; this.closing = true; w.oplog.push(["closed-by-page", this.n]); } }
  }
  for (const [k, v] of Object.entries({ CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 })) { WS[k] = v; WS.prototype[k] = v; }
  return { WS, all };
}

async function run(req) {
  const w = W.makeWorld({ location: req.location });
  w.oplog = [];
  const { WS, all } = makeSockets(w);
  w.WebSocket = WS;
  w.window.WebSocket = WS;
  const m = w.load(code);
  const host = w.document.createElement("div");
  w.body.appendChild(host);
  let client = null;
  const offs = {};
  if (req.mount) {
    m.mountReactPy({ mountElement: host, ...req.mount });
    await w.advance(1);
  } else {
    client = new m.ReactPyClient({ urls: { componentUrl: new URL(req.url), jsModulesPath: "/m/" }, reconnectOptions: req.options, mountElement: host });
  }
  await w.settle();
  const marks = [];
  const current = () => all[all.length - 1];
  for (const st of req.steps) {
    const s = current();
    w.oplog.push(["step", marks.length, w.clock.now]);
    marks.push(st[0]);
    switch (st[0]) {
      case "on": {
        const id = st[2];
        offs[id] = client.onMessage(st[1], (msg) => {
          w.oplog.push(["got", id, msg]);
          if (st[3] === "throws") throw new Error("handler failed");
          if (st[3] === "off") offs[id]();
          if (st[3] && st[3].off) (offs[st[3].off] || (() => {}))();
        });
        break;
      }
      case "off": if (offs[st[1]]) offs[st[1]](); break;
      case "send": client.sendMessage(st[1]); break;
      case "open": if (s && s.readyState === 0) { s.readyState = 1; if (st[1]) s.full = st[1]; s.emit("open"); } break;
      case "lose": if (s && s.readyState < 3) { const was = s.readyState; s.readyState = 3; if (st[1] || was === 0) s.emit("error"); s.emit("close", { code: 1006, wasClean: false }); } break;
      case "closing": if (s && s.readyState === 1) s.readyState = 2; break;
      case "receive": if (s && s.readyState === 1) s.emit("message", { data: JSON.stringify(st[1]) }); break;
      case "navigate": w.location.pathname = st[1]; w.location.search = st[2]; break;
      case "advance": await w.advance(st[1]); break;
      case "click": w.fire(host.childNodes[0] || host, "onClick", new w.Event("click")); break;
    }
    await w.settle();
    await w.advance(0);
  }
  w.oplog.push(["step", marks.length, w.clock.now]);
  return { log: w.oplog, errors: w.errors.map((x) => x.split("\n").slice(0, 3).join(" | ")), text: host.childNodes.map((n) => n.tagName || n.data), rejections: (global.__rejections || []).splice(0) };
}
W.serve(run);
