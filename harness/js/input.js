// User input, a server that lags behind and rate limited handlers, see checks/c24.py
"use strict";
const W = require("./world.js");
const code = W.compile(W.bundle(W.CLIENT));

async function run(req) {
  const w = W.makeWorld({ effectDelay: req.effectDelay || 0 });
  // events have no current target anymore once they were dispatched
  const fire = w.fire;
  w.fire = (el, prop, ev) => { const n = fire(el, prop, ev); ev.currentTarget = null; return n; };
  const m = w.load(code);
  const sent = [];
  class Client extends m.BaseReactPyClient {
    sendMessage(x) { sent.push({ at: w.clock.now, m: JSON.parse(JSON.stringify(x)) }); }
    loadModule() { return Promise.reject(new Error("none")); }
  }
  const client = new Client();
  client.sendMessage = client.sendMessage.bind(client);
  const host = w.document.createElement("div");
  w.body.appendChild(host);
  w.preact.api.render(w.preact.api.createElement(m.Layout, { client }), host);
  await w.advance(req.effectDelay || 0);

  // ---- the server
  const models = req.elements.map((e) => JSON.parse(JSON.stringify(e)));
  const acks = new Map();
  const last = new Map();
  let received = 0;
  const queue = [];
  const shown = (i) => {
    const e = JSON.parse(JSON.stringify(models[i]));
    const hs = Object.values(e.eventHandlers || {});
    let ack = -1;
    for (const h of hs) if (acks.has(h.target)) ack = Math.max(ack, acks.get(h.target));
    if (["input", "select", "textarea"].includes(e.tagName) && ack >= 0) e.attributes = { ...(e.attributes || {}), _reactpy_ack_seq: ack };
    return e;
  };
  const root = () => ({ tagName: "", children: [{ tagName: "div", children: models.map((_, i) => shown(i)) }] });
  const out = [];
  let n = 0;
  for (const st of [["render", null], ["deliver", 1], ...req.steps]) {
    const n0 = sent.length, e0 = w.errors.length;
    const r = { delivered: [] };
    const els = host.childNodes[0] ? host.childNodes[0].childNodes : [];
    if (st[0] === "event") {
      const [, i, prop, text] = st;
      const el = els[i];
      if (!el) r.missing = true;
      else {
        r.n = ++n;
        if (text !== null && el.type_) { if (typeof text === "boolean") el.checked = text; else el.type_(text); }
        const ev = Object.assign(new w.Event(prop.slice(2).toLowerCase()), { n: r.n });
        r.called = w.fire(el, prop, ev);
        r.prevented = ev.defaultPrevented; r.stopped = ev.stopped;
        await W.settle();
      }
    } else if (st[0] === "recv") {
      for (let k = 0; k < st[1] && received < sent.length; k++) {
        const x = sent[received++].m;
        if (!(acks.get(x.target) >= x.seq)) acks.set(x.target, x.seq);
        const t = x.data && x.data[0] && x.data[0].target;
        if (t) last.set(x.target, t.value);
      }
    } else if (st[0] === "render") {
      // the server renders one element or everything, after changing or replacing an element
      const [, i, change] = st;
      if (i !== null && change) {
        if (change.replace) for (const h of Object.values(models[i].eventHandlers || {})) acks.delete(h.target);
        const { replace, echo, ...rest } = change;
        models[i] = { ...models[i], ...JSON.parse(JSON.stringify(rest)) };
        if (echo) {
          for (const h of Object.values(models[i].eventHandlers || {})) if (last.has(h.target)) models[i].attributes = { ...models[i].attributes, value: echo === "upper" ? String(last.get(h.target)).toUpperCase() : last.get(h.target) };
        }
      }
      queue.push(i === null ? { path: "", model: root() } : { path: "/children/0/children/" + i, model: shown(i) });
    } else if (st[0] === "deliver") {
      for (let k = 0; k < st[1] && queue.length; k++) {
        const u = queue.shift();
        r.delivered.push(JSON.parse(JSON.stringify(u)));
        try { client.handleIncoming({ type: "layout-update", ...u }); } catch (e) { w.errors.push("update: " + (e && e.stack || e)); }
        await W.settle();
      }
    } else if (st[0] === "advance") {
      await w.advance(st[1]);
    }
    const now = host.childNodes[0] ? host.childNodes[0].childNodes : [];
    r.now = w.clock.now;
    r.dom = now.map((x) => ({ tag: x.tagName, id: x.id_, value: x.type_ ? x.value : undefined, checked: x.checked }));
    r.sent = sent.slice(n0);
    r.queue = queue.length;
    r.unread = sent.length - received;
    r.errors = w.errors.slice(e0).map((x) => x.split("\n").slice(0, 4).join(" | "));
    out.push(r);
  }
  return { steps: out, rejections: (global.__rejections || []).splice(0), pending: w.clock.list.length };
}
W.serve(run);
