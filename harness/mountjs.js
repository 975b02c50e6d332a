// Evaluates the inline scripts of a ReactPy page the way a browser would; one JSON request per line.
const vm = require("vm");
const readline = require("readline");
const rl = readline.createInterface({ input: process.stdin });
rl.on("line", (line) => {
  let out;
  try {
    out = evaluate(JSON.parse(line));
  } catch (e) {
    out = { error: String(e && e.stack ? e.stack : e).slice(0, 600) };
  }
  process.stdout.write(JSON.stringify(out) + "\n");
});
function evaluate(req) {
  const res = { mounts: [], imports: [], importmaps: [] };
  const ids = new Set(req.ids);
  const document = {
    querySelector: (s) => (s === "#reactpy-importmap" && (req.hasMap || res.importmaps.some((m) => m.id === "reactpy-importmap")) ? {} : null),
    getElementById: (i) => (ids.has(i) ? { $id: i } : null),
    createElement: (t) => ({ tag: t, setAttribute(k, v) { this[k] = v; }, append(x) { this.textContent = x; } }),
    head: { appendChild: (e) => res.importmaps.push({ type: e.type, id: e.id, tag: e.tag, text: e.textContent ?? e.innerHTML }), append(e) { this.appendChild(e); } },
  };
  for (const s of req.scripts) {
    let code = s.text;
    if (s.type === "module") {
      code = code.replace(/import\s*\{([^}]*)\}\s*from\s*("(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')\s*;?/g, (_, names, lit) => {
        res.imports.push([names.trim(), vm.runInNewContext(lit)]);
        return "";
      });
      code = '"use strict";' + code;
    } else if (s.type && s.type !== "text/javascript") continue;
    const g = { document, console: { debug() {}, log() {}, warn() {} }, mountReactPy: (p) => res.mounts.push(p) };
    vm.runInNewContext(code, g);
  }
  res.mounts = res.mounts.map((m) => ({ ...m, mountElement: m.mountElement && m.mountElement.$id }));
  return res;
}
