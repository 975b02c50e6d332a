// Converts generated object graphs with the real event-to-object, see checks/c23.py
"use strict";
const W = require("./world.js");
const code = W.compile(W.bundle(W.E2O));

const boom = () => { throw new Error("hostile"); };

function build(req) {
  class FWindow {}
  class FDocument {}
  class Sheet {}
  class Style {}
  class FNode {}
  class FEvent {}
  class Form extends FNode {}
  const C = { obj: Object, arr: Array, cls: class Thing {}, event: FEvent, node: FNode, form: Form, style: Style };
  const objs = req.nodes.map((n) => {
    if (n.kind === "arr") return [];
    if (n.kind === "typed") return new Float64Array(n.items.length);
    if (n.kind === "nullproto") return Object.create(null);
    const base = { input: FNode, select: FNode, filelist: C.cls, arrlike: C.cls, nolist: C.cls, map: C.cls }[n.kind] || C[n.kind];
    // an own class for every object, with its members on the prototype
    const K = base === Object ? null : class extends base {};
    return K ? new K() : {};
  });
  const val = (v) => {
    if (v === null || typeof v !== "object") return v;
    if ("r" in v) return objs[v.r];
    if ("f" in v) return () => 1;
    if ("u" in v) return undefined;
    if ("nan" in v) return NaN;
    if ("inf" in v) return -Infinity;
    if ("big" in v) return BigInt(v.big);
    if ("sym" in v) return Symbol("s");
    if ("win" in v) return new FWindow();
    if ("doc" in v) return new FDocument();
    if ("sheet" in v) return new Sheet();
    // like a frame of another origin, nothing can be done with it
    if ("hostile" in v) return new Proxy({}, { get: boom, getPrototypeOf: boom, has: boom, ownKeys: boom, getOwnPropertyDescriptor: boom });
    throw new Error("value " + JSON.stringify(v));
  };
  req.nodes.forEach((n, i) => {
    const o = objs[i];
    const proto = Object.getPrototypeOf(o);
    const def = (where, k, v, enumerable) => Object.defineProperty(where, k, { get: () => val(v), enumerable, configurable: true });
    for (const [k, v] of Object.entries(n.own || {})) {
      if (n.kind === "typed" || n.kind === "arr") continue;
      Object.defineProperty(o, k, { value: val(v), enumerable: true, configurable: true, writable: true });
    }
    if (!["obj", "arr", "typed", "nullproto"].includes(n.kind)) {
      for (const [k, v] of Object.entries(n.proto || {})) def(proto, k, v, true);
      for (const [k, v] of Object.entries(n.hidden || {})) def(proto, k, v, false);
    }
    if (n.kind !== "arr" && n.kind !== "typed") for (const k of n.throws || []) Object.defineProperty(o, k, { get: boom, enumerable: true, configurable: true });
    const items = n.items || [];
    if (n.kind === "arr" || n.kind === "typed") items.forEach((v, j) => { o[j] = val(v); });
    else if (n.items) {
      const hidden = n.kind === "nolist";
      items.forEach((v, j) => Object.defineProperty(o, j, { get: () => val(v), enumerable: n.kind !== "filelist" && n.kind !== "arrlike" || !n.hideItems, configurable: true }));
      Object.defineProperty(proto === Object.prototype || proto === null ? o : proto, "length", { get: () => items.length, enumerable: true, configurable: true });
      if (!hidden) Object.defineProperty(proto === Object.prototype || proto === null ? o : proto, Symbol.iterator, { value: function* () { for (const v of items) yield val(v); }, configurable: true });
      if (n.kind === "map") Object.defineProperty(proto, Symbol.toStringTag, { value: "NamedNodeMap", configurable: true });
    }
    if (n.kind === "arr") for (const j of n.throwItems || []) if (j < items.length) Object.defineProperty(o, j, { get: boom, enumerable: true, configurable: true });
    if (n.kind === "form") Object.defineProperty(proto, "elements", { get: () => (n.elements || []).map((j) => objs[j]), enumerable: false, configurable: true });
  });
  const w = W.makeWorld();
  const sel = req.selection;
  w.window.Event = FEvent;
  w.window.HTMLFormElement = Form;
  if (sel !== undefined) {
    w.window.getSelection = () => sel && {
      type: sel.type, anchorOffset: 1, focusOffset: 2, isCollapsed: false, rangeCount: 1, toString: () => sel.text,
      get anchorNode() { return val(sel.anchor); }, get focusNode() { return val(sel.focus); },
    };
  }
  w.globals = { Node: FNode, Window: FWindow, Document: FDocument, CSSStyleSheet: Sheet, CSSStyleDeclaration: Style, HTMLFormElement: Form, Event: FEvent };
  return { w, root: val(req.root) };
}

// is it made of plain lists and objects only? A shared list or object is fine, a cyclic one is not
function plain(v, above = []) {
  if (v === null || ["string", "boolean", "number"].includes(typeof v)) return null;
  if (typeof v !== "object") return `a ${typeof v}`;
  if (above.includes(v)) return "a cycle";
  if (!Array.isArray(v) && Object.getPrototypeOf(v) !== Object.prototype) return "an instance of a class";
  for (const k of Object.keys(v)) {
    const e = plain(v[k], [...above, v]);
    if (e) return `${e} in ${k}`;
  }
  return null;
}
const depth = (v) => (v && typeof v === "object" ? 1 + Math.max(0, ...Object.values(v).map(depth)) : 0);

async function run(req) {
  const { w, root } = build(req);
  const m = w.load(code);
  const convert = m.default || m;
  try {
    const out = req.maxDepth === null ? convert(root) : convert(root, req.maxDepth);
    if (typeof out !== "object" || out === null) return { prim: out === root };
    const bad = plain(out);
    if (bad) return { bad };
    return { out: JSON.parse(JSON.stringify(out)), depth: depth(out) };
  } catch (e) {
    return { error: String(e && e.stack || e).split("\n").slice(0, 4).join(" | ") };
  }
}
W.serve(run);
