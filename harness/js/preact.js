// A small stand-in for Preact (which is not available offline): createElement, Fragment, keyed
// diffing, contexts, refs and the hooks the client uses. Renders are batched into a microtask;
// effects run in a timer or right before the component renders again.
"use strict";
module.exports = function makePreact(world) {
  const EMPTY = Symbol("text");
  let current = null;
  let hookIndex = 0;
  const dirty = new Set();
  let scheduled = false;

  function Fragment(props) { return props.children; }

  function createElement(type, props, ...children) {
    const p = {};
    let key, ref;
    for (const k in props || {}) {
      if (k === "key") key = props[k];
      else if (k === "ref") ref = props[k];
      else p[k] = props[k];
    }
    if (children.length > 0) p.children = children.length === 1 ? children[0] : children;
    return { vnode: true, type, props: p, key, ref };
  }

  function jsx(type, props, key) {
    const { ref, ...rest } = props || {};
    return { vnode: true, type, props: rest, key, ref };
  }

  function createContext(value) {
    const ctx = { value, subs: new Set() };
    ctx.Provider = function Provider(props) { return props.children; };
    ctx.Provider.context = ctx;
    return ctx;
  }

  // ---- instances: {vnode, type, key, parent, kids, dom?, hooks?, rendered}
  function toList(children, out = []) {
    if (Array.isArray(children)) for (const c of children) toList(c, out);
    else if (children === null || children === undefined || typeof children === "boolean") out.push(null);
    else if (typeof children === "object") {
      if (!children.vnode) throw new Error("Objects are not valid as a child: " + Object.keys(children));
      out.push(children);
    } else out.push({ vnode: true, type: EMPTY, props: { text: String(children) }, key: undefined });
    return out;
  }

  function mountPointOf(inst) {
    let p = inst.parent;
    while (p && !(p.dom && p.vnode.type !== EMPTY)) p = p.parent;
    return p.dom;
  }

  function setProps(inst, old, props) {
    const dom = inst.dom;
    for (const k in old) if (k !== "children" && !(k in props)) { delete dom.props[k]; if (k === "value" || k === "checked") dom[k] = k === "checked" ? false : ""; }
    for (const k in props) {
      if (k === "children") continue;
      dom.props[k] = props[k];
      if (k === "value" || k === "checked") { if (dom[k] !== props[k]) dom[k] = props[k]; }
    }
  }

  function setRef(ref, value) {
    if (!ref) return;
    if (typeof ref === "function") ref(value);
    else ref.current = value;
  }

  function create(vnode, parent) {
    const inst = { vnode, parent, kids: [], hooks: null, dom: null, alive: true };
    if (vnode.type === EMPTY) {
      inst.dom = world.document.createTextNode(vnode.props.text);
    } else if (typeof vnode.type === "function") {
      inst.hooks = [];
      inst.effects = [];
      renderComponent(inst);
    } else {
      inst.dom = world.document.createElement(vnode.type);
      setProps(inst, {}, vnode.props);
      diffChildren(inst, toList(vnode.props.children));
      refs.push(() => setRef(vnode.ref, inst.dom));
    }
    return inst;
  }

  let refs = [];
  function flushRefs() { const r = refs; refs = []; r.forEach((f) => f()); }

  function runEffects(inst) {
    const list = inst.effects || [];
    inst.effects = [];
    const live = list.filter((h) => inst.alive);
    live.forEach((h) => { if (h.cleanup) { const c = h.cleanup; h.cleanup = undefined; guarded(c); } });
    live.forEach((h) => { const r = guarded(h.fn); h.cleanup = typeof r === "function" ? r : undefined; });
  }
  function guarded(f) {
    try { return f(); } catch (e) { world.errors.push("effect: " + (e && e.stack || e)); }
  }

  function renderComponent(inst) {
    dirty.delete(inst);
    inst.forced = false;
    for (const h of inst.hooks) if ("next" in h) { h.value = h.next; delete h.next; }
    runEffects(inst);
    const before = [current, hookIndex];
    current = inst; hookIndex = 0;
    let out;
    try {
      inst.busy = true;
      out = inst.vnode.type(inst.vnode.props);
    } catch (e) {
      world.errors.push("render: " + (e && e.stack || e));
      out = null;
    } finally { inst.busy = false; [current, hookIndex] = before; }
    if (inst.effects.length) world.setTimeout(() => { if (inst.alive) runEffects(inst); }, world.effectDelay);
    diffChildren(inst, toList(out));
  }

  function update(inst, vnode) {
    const old = inst.vnode;
    inst.vnode = vnode;
    if (vnode.type === EMPTY) {
      if (old.props.text !== vnode.props.text) inst.dom.data = vnode.props.text;
    } else if (typeof vnode.type === "function") {
      if (vnode.type.context && old.props.value !== vnode.props.value) vnode.type.context.subs.forEach((s) => { s.forced = true; dirty.add(s); });
      renderComponent(inst);
    } else {
      setProps(inst, old.props, vnode.props);
      diffChildren(inst, toList(vnode.props.children));
      if (old.ref !== vnode.ref) { setRef(old.ref, null); refs.push(() => inst.alive && setRef(vnode.ref, inst.dom)); }
    }
  }

  function unmount(inst) {
    inst.alive = false;
    dirty.delete(inst);
    if (inst.vnode.ref) setRef(inst.vnode.ref, null);
    if (inst.hooks) for (const h of inst.hooks) if (h.cleanup) { const c = h.cleanup; h.cleanup = undefined; guarded(c); }
    for (const k of inst.kids) if (k) unmount(k);
    if (inst.dom && inst.dom.parentNode) inst.dom.parentNode.removeChild(inst.dom);
  }

  function domsOf(inst, out = []) {
    if (!inst.alive) return out;
    if (inst.dom) out.push(inst.dom);
    else for (const k of inst.kids) if (k) domsOf(k, out);
    return out;
  }

  function diffChildren(inst, list) {
    const old = inst.kids;
    const used = new Set();
    const kids = list.map((v, i) => {
      if (v === null) return null;
      const same = (o) => o && !used.has(o) && o.vnode.type === v.type && (o.vnode.key ?? null) === (v.key ?? null);
      let hit = same(old[i]) ? old[i] : null;
      for (let d = 1; !hit && d < old.length + list.length; d++) {
        if (same(old[i - d])) hit = old[i - d];
        else if (same(old[i + d])) hit = old[i + d];
      }
      if (hit) used.add(hit);
      return hit;
    });
    for (const o of old) if (o && !used.has(o)) unmount(o);
    inst.kids = kids.map((hit, i) => {
      if (list[i] === null) return null;
      if (hit) { update(hit, list[i]); return hit; }
      return create(list[i], inst);
    });
    if (inst.dom || inst.root) place(inst);
    else if (inst.parent && inst.placed) placeUp(inst);
    inst.placed = true;
  }

  function placeUp(inst) {
    let p = inst.parent;
    while (p && !(p.dom || p.root)) p = p.parent;
    if (p) place(p);
  }
  function place(host) {
    const dom = host.root || host.dom;
    const want = [];
    for (const k of host.kids) if (k) domsOf(k, want);
    let at = null;
    for (let i = want.length - 1; i >= 0; i--) {
      if (want[i].parentNode !== dom || want[i].nextSibling !== at) dom.insertBefore(want[i], at);
      at = want[i];
    }
  }

  function flush() {
    const outer = refs;
    refs = [];
    flushDirty();
    refs = outer;
  }
  function flushDirty() {
    let n = 0;
    while (dirty.size) {
      if (n++ > 200) { world.errors.push("endless rendering"); dirty.clear(); break; }
      const inst = dirty.values().next().value;
      dirty.delete(inst);
      if (!inst.alive) continue;
      if (!inst.forced && !inst.hooks.some((h) => "next" in h && !Object.is(h.next, h.value))) {
        for (const h of inst.hooks) delete h.next;
        continue;
      }
      renderComponent(inst); flushRefs();
    }
  }
  function enqueue(inst) {
    dirty.add(inst);
    if (!scheduled) { scheduled = true; Promise.resolve().then(() => { scheduled = false; flush(); }); }
  }

  const ROOT = Symbol("root");
  function render(vnode, node) {
    let root = node[ROOT];
    if (!root) root = node[ROOT] = { vnode: { type: "root", props: {} }, parent: null, kids: [], root: node, alive: true, dom: null };
    // every render has its own queue of refs
    const outer = refs;
    refs = [];
    diffChildren(root, toList(vnode));
    flushRefs();
    refs = outer;
      }

  // ---- hooks
  function hook(make) {
    const i = hookIndex++;
    if (!current) throw new Error("hook outside of a component");
    if (i >= current.hooks.length) current.hooks.push(make());
    return current.hooks[i];
  }
  const sameDeps = (a, b) => a && b && a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
  function useState(initial) {
    const inst = current;
    const h = hook(() => {
      const h = { value: typeof initial === "function" ? initial() : initial };
      h.set = (v) => {
        // as in Preact: the next value is taken over when the component renders, and it does
        // not render if the value is the old one then
        const now = "next" in h ? h.next : h.value;
        const next = typeof v === "function" ? v(now) : v;
        if (!Object.is(next, now)) { h.next = next; if (inst.alive) enqueue(inst); }
      };
      return h;
    });
    return [h.value, h.set];
  }
  function useRef(v) { return hook(() => ({ ref: { current: v } })).ref; }
  function useMemo(f, deps) {
    const h = hook(() => ({}));
    if (!sameDeps(h.deps, deps)) { h.value = f(); h.deps = deps; }
    return h.value;
  }
  const useCallback = (f, deps) => useMemo(() => f, deps);
  function useEffect(fn, deps) {
    const h = hook(() => ({}));
    if (!sameDeps(h.deps, deps)) { h.deps = deps; h.fn = fn; if (!current.effects.includes(h)) current.effects.push(h); }
  }
  function useContext(ctx) {
    const inst = current;
    hook(() => { ctx.subs.add(inst); return {}; });
    for (let p = inst.parent; p; p = p.parent) if (p.vnode.type && p.vnode.type.context === ctx) return p.vnode.props.value;
    return ctx.value;
  }

  function useReducer(reduce, initial, init) {
    const [state, set] = useState(() => (init ? init(initial) : initial));
    return [state, useCallback((action) => set((old) => reduce(old, action)), [])];
  }
  function useLayoutEffect(fn, deps) {
    const inst = current;
    const h = hook(() => ({}));
    if (sameDeps(h.deps, deps)) return;
    h.deps = deps;
    refs.push(() => {
      if (!inst.alive) return;
      if (h.cleanup) { guarded(h.cleanup); h.cleanup = undefined; }
      const r = guarded(fn);
      h.cleanup = typeof r === "function" ? r : undefined;
    });
  }
  let ids = 0;
  const useId = () => useMemo(() => "P" + ids++, []);
  const memo = (type) => function Memo(props) { return createElement(type, props); };
  const forwardRef = (f) => function ForwardRef(props) { return f(props, props.ref); };
  const createRef = () => ({ current: null });
  const isValidElement = (v) => !!(v && v.vnode);
  function cloneElement(v, props, ...children) {
    const kids = children.length ? children : v.props.children === undefined ? [] : [].concat(v.props.children);
    return createElement(v.type, { key: v.key, ref: v.ref, ...v.props, ...props, children: undefined }, ...kids);
  }

  const api = { createElement, h: createElement, Fragment, createContext, render, jsx, jsxs: jsx, jsxDEV: jsx, memo, forwardRef, createRef, isValidElement, cloneElement };
  const hooks = { useState, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useContext, useReducer, useId };
  return { api, hooks, flush };
};
