// Runs one scenario of updates, events and time against the real client, see checks/c21.py
"use strict";
const W = require("./world.js");
const code = W.compile(W.bundle(W.CLIENT));

function scenario(req) {
  const w = W.makeWorld({ effectDelay: req.effectDelay || 0 });
  const sent = [];
  const said = [];
  const loads = [];
  const binds = [];
  const oplog = [];
  const rec = (b, op) => { b.ops.push(op); oplog.push([b.id, op]); };
  // ---- modules that components are imported from
  class Binding {
    constructor(b, node) { this.b = b; this.node = node; }
    create(type, props, children) { this.b.id; return w.preact.api.createElement(type, props, ...(children || [])); }
    render(el) { rec(this.b, "r"); w.preact.api.render(el, this.node); }
    unmount() { rec(this.b, "u"); w.preact.api.render(null, this.node); }
  }
  const makeModule = (name, spec) => {
    const m = {};
    const comp = (label) => (props) => w.preact.api.createElement("x-comp", { "data-c": label, ...props });
    for (const e of spec.exports || []) {
      const parts = e.split(".");
      let o = m;
      parts.forEach((p, i) => { if (!(p in o)) o[p] = comp(`${name}:${parts.slice(0, i + 1).join(".")}`); o = o[p]; });
    }
    if (spec.bind) {
      m.bind = (node, ctx) => {
        const b = { id: binds.length, mod: name, ops: [], node: node.id_ };
        binds.push(b);
        if (spec.bind === "bad") return { create() {} };
        if (spec.bind === "throws") throw new Error("bind failed");
        if (spec.talks) {
          // it may talk to the server on its own
          const { sendMessage, onMessage } = ctx;
          b.pings = [];
          const off = [(x) => b.pings.push(x.n), (x) => b.pings.push(-x.n)].map((f, i) => (i ? onMessage("ping", f) : ctx.onMessage("ping", f)));
          off[1]();
          ctx.sendMessage({ type: "bound", id: b.id });
          sendMessage({ type: "bound", id: b.id });
        }
        return new Binding(b, node);
      };
    }
    return m;
  };
  const modules = {};
  for (const [n, s] of Object.entries(req.modules || {})) modules[n] = makeModule(n, s);
  for (const [n, s] of Object.entries(req.modules || {})) if (s.url) w.imports[n] = s.fail ? new Error("load") : modules[n];
  if (req.react) {
    w.imports["react"] = { createElement: w.preact.api.createElement };
    w.imports["react-dom/client"] = {
      createRoot(node) {
        const b = { id: binds.length, mod: "react", ops: [], node: node.id_ };
        binds.push(b);
        let dead = false;
        return {
          render(el) { if (dead) throw new Error("Cannot update an unmounted root."); rec(b, "r"); w.preact.api.render(el, node); },
          unmount() { dead = true; rec(b, "u"); w.preact.api.render(null, node); },
        };
      },
    };
  }
  const m = w.load(code);
  class Client extends m.BaseReactPyClient {
    sendMessage(x) { if (x.type === "bound") said.push(x.id); else this.sent_.push([w.clock.now, JSON.parse(JSON.stringify(x))]); }
    loadModule(name) {
      loads.push(name);
      const s = (req.modules || {})[name] || { fail: true };
      return new Promise((res, rej) => w.setTimeout(() => (s.fail ? rej(new Error("load")) : res(modules[name])), s.delay || 0));
    }
    receive(x) { this.handleIncoming(x); }
  }
  const client = new Client();
  client.sent_ = sent;
  const host = w.document.createElement("div");
  w.body.appendChild(host);
  const plain = (v) => {
    if (typeof v === "function") return { $fn: true };
    return v === undefined ? { $undef: true } : v;
  };
  const snap = (n) => {
    if (n.data !== undefined && !n.tagName) return n.data;
    const o = { tag: n.tagName, id: n.id_, props: Object.fromEntries(Object.entries(n.props).map(([k, v]) => [k, plain(v)])), ch: n.childNodes.map(snap) };
    if (Object.keys(n.attrs).length) o.attrs = n.attrs;
    if (n.writes) o.value = n.value;
    if (n.marks) o.marks = n.marks;
    return o;
  };
  const at = (path) => path.reduce((n, i) => n && n.childNodes[i], host);
  return { w, m, client, host, snap, at, sent, said, loads, binds, oplog };
}

async function run(req) {
  const s = scenario(req);
  const { w, m, client, host } = s;
  const out = [];
  w.preact.api.render(w.preact.api.createElement(m.Layout, { client }), host);
  await w.advance(req.effectDelay || 0);
  await w.advance(0);
  for (const st of req.steps) {
    const n0 = s.sent.length, e0 = w.errors.length;
    const r = {};
    if (st[0] === "update") {
      for (const [path, model] of st[1]) {
        try { client.receive({ type: "layout-update", path, model: JSON.parse(JSON.stringify(model)) }); } catch (e) { w.errors.push("update: " + (e && e.stack || e)); }
      }
      await w.settle();
    } else if (st[0] === "advance") {
      await w.advance(st[1]);
    } else if (st[0] === "event") {
      const el = s.at(st[1]);
      if (!el || el.tagName === undefined) { r.missing = true; }
      else {
        const ev = Object.assign(new w.Event(st[2].slice(2).toLowerCase()), st[3]);
        r.called = w.fire(el, st[2], ev);
        r.prevented = ev.defaultPrevented; r.stopped = ev.stopped;
        await w.settle();
      }
    } else if (st[0] === "type") {
      const el = s.at(st[1]);
      if (!el || !el.writes) r.missing = true;
      else {
        el.type_(st[3]);
        const ev = Object.assign(new w.Event(st[2].slice(2).toLowerCase()), { target: el });
        r.called = w.fire(el, st[2], ev);
        await w.settle();
      }
    } else if (st[0] === "call") {
      // an imported component calls its handler with arbitrary arguments
      const el = s.at(st[1]);
      const h = el && el.props && el.props[st[2]];
      if (typeof h !== "function") r.missing = true;
      else { try { r.events = []; h(...st[3].map((a) => {
        if (a && a.$event) { const ev = Object.assign(new w.Event(a.$event), a.data); r.events.push(ev); return ev; }
        return a && a.$undef ? undefined : a;
      })); r.events = r.events.map((e) => [e.defaultPrevented, e.stopped]); } catch (e) { w.errors.push("call: " + (e && e.stack || e)); } await w.settle(); }
    }
    r.now = w.clock.now;
    r.nop = s.oplog.length;
    if (!st.quiet) r.dom = host.childNodes.map(s.snap);
    r.sent = s.sent.slice(n0);
    r.errors = w.errors.slice(e0).map((x) => x.split("\n").slice(0, 4).join(" | "));
    out.push(r);
  }
  if (Object.values(req.modules || {}).some((x) => x.talks)) client.receive({ type: "ping", n: 7 });
  const rej = global.__rejections || [];
  global.__rejections = [];
  return { steps: out, binds: s.binds, said: s.said, oplog: s.oplog, loads: s.loads, log: w.log, rejections: rej, pending: w.clock.list.length };
}
W.serve(run);
