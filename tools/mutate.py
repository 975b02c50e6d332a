"""python3 tools/mutate.py list FILE...            -> number of mutants of these files
python3 tools/mutate.py run OUT.jsonl WORKERS FILE[:first-last]... [--sample N] [--seed S]
Systematic mutation of source files, to find out what the checks miss.  Works in private copies of /repo and /verif
(bind mounted in a mount namespace); nothing in /repo or /verif changes."""
import ast, json, os, random, re, subprocess, sys, tempfile, shutil, time

FAST = os.environ.get("VERIF_FAST", "0.15")
CHECKS = [
    ("core/layout.py", "C01 C02 C04 C05 C03 C09 C06 C08 C17"), ("core/_life_cycle_hook.py", "C03 C06 C02 C08 C05 C07 C01"),
    ("core/hooks.py", "C06 C07 C03 C08"), ("core/component.py", "C07 C02 C10"), ("core/vdom.py", "C10 C09 C18"),
    ("core/events.py", "C13 C10"), ("core/_event_inspect.py", "C13"), ("core/serve.py", "C17 C01"), ("core/_thread_local.py", "C01"),
    ("_html.py", "C10 C09"), ("reactpy/utils.py", "C11 C12"), ("transforms.py", "C11"), ("_option.py", "C14"), ("config.py", "C14"),
    ("asgi/middleware.py", "C15 C17"), ("asgi/standalone.py", "C16 C15"), ("executors/utils.py", "C16 C15 C20"), ("asgi/pyscript.py", "C20 C16"),
    ("pyscript/utils.py", "C20 C29 C26"), ("pyscript/components.py", "C20"), ("pyscript/component_template.py", "C20 C26"), ("layout_handler.py", "C26"), ("testing/", "C28"), ("templatetags/jinja.py", "C16 C20 C15"), ("reactjs/", "C18"), ("_console/", "C19"),
    ("reactpy/types.py", "C10 C09 C08 C13 C02 C18"), ("components.tsx", "C21 C24 C25"), ("vdom.tsx", "C21 C24 C25"), ("bind.tsx", "C25"), ("client.ts", "C22"),
    ("websocket.ts", "C22"), ("mount.tsx", "C22 C21"), ("handler.ts", "C22"), ("event-to-object", "C23"), ("widgets.py", "C27 C06")]


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    b = src.encode()
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    pos = lambda ln, c: offs[ln - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: b[span(n)[0] : span(n)[1]].decode()
    out = []

    def sub(n, new, what):
        s, e = span(n)
        out.append((n.lineno, what, b[:s].decode() + new + b[e:].decode()))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in [n.returns] + [a.annotation for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs]:
                if d is not None:
                    skip.update(id(x) for x in ast.walk(d))
            if any("overload" in ast.dump(d) for d in n.decorator_list):
                skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.dump(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.match(r"(logger|_logger|warn|log)\b", text(n.value)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "msg" for t in n.targets):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("cast", "TypeVar", "NewType", "getLogger"):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
    infunc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            infunc.update(id(x) for s in n.body for x in ast.walk(s))
    CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sub(n, f"{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            sub(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                op2 = " and " if isinstance(n.op, ast.And) else " or "
                sub(n, "(" + op2.join(f"({text(v)})" for v in rest) + ")", f"drop operand {i}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, f"bool({text(n.operand)})", "not")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not (isinstance(n.test, ast.Constant)):
                sub(n.test, "True" if isinstance(n, (ast.If, ast.IfExp)) else "False", "cond true")
                if not isinstance(n, ast.While):
                    sub(n.test, "False", "cond false")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                sub(n, str(not n.value), "bool")
            elif isinstance(n.value, (int, float)):
                sub(n, repr(n.value + 1), "num+1")
            elif isinstance(n.value, str) and n.value and (id(n) in infunc or len(n.value) < 40):
                sub(n, repr(n.value + "X") if not text(n).startswith("b") else text(n), "str")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            sub(n, "return None", "return None")
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)):
            sub(n, "pass", "del stmt")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and id(n) in infunc:
            sub(n, "pass", "del assign")
        elif isinstance(n, ast.Delete):
            sub(n, "pass", "del del")
        elif isinstance(n, ast.Break):
            sub(n, "continue", "break")
        elif isinstance(n, ast.Continue):
            sub(n, "break", "continue")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            sub(n, f"{text(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {text(n.right)}", "arith")
            sub(n, text(n.left), "drop right"); sub(n, text(n.right), "drop left")
        if isinstance(n, ast.Call) and id(n) in infunc:
            for k in n.keywords:
                if k.arg:
                    s, e = span(k)
                    t = b[:s].decode() + b[e:].decode().lstrip().removeprefix(",")
                    out.append((k.value.lineno, f"drop kw {k.arg}", t))
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "set", "tuple", "sorted", "str", "reversed", "deepcopy", "copy"):
                sub(n, text(n.args[0]), f"drop {n.func.id}()")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "lower", "strip", "upper", "lstrip", "rstrip") and not n.args:
                sub(n, text(n.func.value), f"drop .{n.func.attr}()")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault", "pop") and len(n.args) == 2:
                sub(n.args[1], "None", "default None")
        if isinstance(n, ast.Dict) and id(n) in infunc and len(n.keys) > 1:
            for i, (k, v) in enumerate(zip(n.keys, n.values)):
                if k is None:
                    s, e = span(v); s -= 2
                else:
                    s, e = span(k)[0], span(v)[1]
                t = b[e:].decode().lstrip().removeprefix(",")
                out.append((v.lineno, "drop dict item", b[:s].decode() + t))
        if isinstance(n, ast.ExceptHandler) and n.type is not None and not isinstance(n.type, ast.Tuple):
            sub(n.type, "ZeroDivisionError", "except nothing")
    res = []
    for ln, what, t in out:
        try:
            compile(t, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        if t != src:
            res.append((ln, what, t))
    return res


def ts_mutants(path):
    js = r"""
const ts=require('/opt/veriftools/node/node_modules/typescript'),fs=require('fs');
const src=fs.readFileSync(process.argv[1],'utf8');const sf=ts.createSourceFile('x.tsx',src,ts.ScriptTarget.Latest,true,process.argv[1].endsWith('.ts')?ts.ScriptKind.TS:ts.ScriptKind.TSX);
const out=[];const K=ts.SyntaxKind;
function sub(n,t,w){const s=n.getStart(),e=n.getEnd();out.push([sf.getLineAndCharacterOfPosition(s).line+1,w,src.slice(0,s)+t+src.slice(e)]);}
const SW={'===':'!==','!==':'===','==':'!=','!=':'==','<':'<=','<=':'<','>':'>=','>=':'>','&&':'||','||':'&&','+':'-','-':'+','??':'&&','*':'/','in':null};
function walk(n){
 if(ts.isTypeNode(n)||ts.isInterfaceDeclaration(n)||ts.isTypeAliasDeclaration(n)||ts.isImportDeclaration(n)) return;
 if(ts.isExpressionStatement(n)&&/^(logger|log|console)\b/.test(n.getText())) return;
 if(ts.isBinaryExpression(n)){const o=n.operatorToken.getText();if(SW[o])sub(n.operatorToken,SW[o],'op');
  if(o=='&&'||o=='||'||o=='??'){sub(n,n.left.getText(),'drop right');sub(n,n.right.getText(),'drop left');}}
 if(ts.isPrefixUnaryExpression(n)&&n.operator==K.ExclamationToken)sub(n,'!!('+n.operand.getText()+')','not');
 if(ts.isIfStatement(n)||ts.isWhileStatement(n)){sub(n.expression,'true','cond true');sub(n.expression,'false','cond false');}
 if(ts.isConditionalExpression(n)){sub(n.condition,'true','cond true');sub(n.condition,'false','cond false');}
 if(ts.isExpressionStatement(n)&&!(n.expression.getText().startsWith('super')))sub(n,';','del stmt');
 if(ts.isReturnStatement(n)&&n.expression)sub(n,'return null as any;','return null');
 if(n.kind==K.TrueKeyword)sub(n,'false','bool');if(n.kind==K.FalseKeyword)sub(n,'true','bool');
 if(ts.isNumericLiteral(n))sub(n,'('+n.getText()+'+1)','num');
 if(ts.isStringLiteral(n)&&!ts.isImportDeclaration(n.parent))sub(n,JSON.stringify(n.text+'X'),'str');
 if(ts.isBreakStatement(n))sub(n,';','break');if(ts.isContinueStatement(n))sub(n,';','continue');
 if(ts.isSpreadAssignment(n)||(ts.isPropertyAssignment(n)||ts.isShorthandPropertyAssignment(n))){const s=n.getStart();let e=n.getEnd();const m=/^\s*,/.exec(src.slice(e));if(m)e+=m[0].length;
   out.push([sf.getLineAndCharacterOfPosition(s).line+1,'drop prop',src.slice(0,s)+src.slice(e)]);}
 if(ts.isVariableStatement(n)===false&&ts.isArrayLiteralExpression(n)&&ts.isCallExpression(n.parent)&&/^use(Effect|Memo|Callback)$/.test(n.parent.expression.getText().split('.').pop()))
   {sub(n,'[]','deps []'); n.elements.forEach((x,i)=>{sub(n,'['+n.elements.filter((_,j)=>j!=i).map(z=>z.getText()).join(', ')+']','drop dep '+x.getText());});}
 ts.forEachChild(n,walk);
}
walk(sf);fs.writeSync(1,JSON.stringify(out));
"""
    r = subprocess.run(["node", "-e", js, path], capture_output=True, text=True)
    if r.returncode:
        raise Exception(r.stderr)
    src = open(path).read()
    return [tuple(x) for x in json.loads(r.stdout) if x[2] != src]


def mutants(path):
    return py_mutants(open(path).read()) if path.endswith(".py") else ts_mutants(path)


def checks_for(f):
    for frag, cs in CHECKS:
        if frag in f:
            return cs.split()
    raise Exception(f)


def worker(jobs, out):
    """in the namespace: /repo and /verif are private"""
    for j in jobs:
        p = f"/repo/{j['file']}"
        orig = open(p).read()
        res = {k: j[k] for k in ("file", "line", "what")}
        a, b = orig.split("\n"), j["text"].split("\n")
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), 0)
        res["old"], res["new"] = a[i].strip(), b[i].strip()
        open(p, "w").write(j["text"])
        t0 = time.time()
        try:
            res["killed"] = None
            for c in j["checks"]:
                try:
                    r = subprocess.run(["timeout", "-k", "5", "240", "/verif/check", c], env={**os.environ, "VERIF_FAST": FAST}, capture_output=True, text=True, cwd="/verif")
                    rc = r.returncode
                    v = re.findall(r"^VIOLATION property=(\w+)", r.stdout, re.M)
                except Exception as e:
                    rc, v = repr(e), []
                if rc == 1 and v:
                    res["killed"] = c; break
                if rc != 0:
                    res.setdefault("odd", []).append([c, rc, (r.stdout + r.stderr)[-300:]])
                    res["killed"] = c + "?"
                    break
        finally:
            open(p, "w").write(orig)
        res["s"] = round(time.time() - t0, 1)
        with open(out, "a") as fh:
            fh.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            ms = mutants(f); print(len(ms), f)
    elif sys.argv[1] == "worker":
        worker(json.load(open(sys.argv[2])), sys.argv[3])
    else:
        out, W = sys.argv[2], int(sys.argv[3])
        args = sys.argv[4:]
        opt = {}
        OPTS = ("--sample", "--seed", "--checks", "--only")
        while any(o in args for o in OPTS):
            for o in OPTS:
                if o in args:
                    i = args.index(o); opt[o] = args[i + 1]; del args[i : i + 2]
        done = set()
        if os.path.exists(out):
            for l in open(out):
                d = json.loads(l); done.add((d["file"], d["line"], d["what"], d["new"]))
        only = None
        if "--only" in opt:       # the survivors of an earlier run
            only = {(d["file"], d["line"], d["what"], d["new"]) for d in map(json.loads, open(opt["--only"])) if d["killed"] is None}
            args = args or sorted({x[0] for x in only})
        jobs = []
        for f in args:
            f, _, rng = f.partition(":")
            lo, hi = (map(int, rng.split("-")) if rng else (0, 10**9))
            o = open(f"/repo/{f}").read().split("\n")
            for ln, what, t in mutants(f"/repo/{f}"):
                b = t.split("\n")
                i = next((i for i in range(min(len(o), len(b))) if o[i] != b[i]), 0)
                if lo <= ln <= hi and (f, ln, what, b[i].strip()) not in done and (only is None or (f, ln, what, b[i].strip()) in only):
                    jobs.append(dict(file=f, line=ln, what=what, text=t, checks=opt["--checks"].split(",") if "--checks" in opt else checks_for(f)))
        random.Random(int(opt.get("--seed", 1))).shuffle(jobs)
        if "--sample" in opt:
            jobs = jobs[: int(opt["--sample"])]
        print(len(jobs), "mutants", flush=True)
        procs = []
        for w in range(W):
            d = tempfile.mkdtemp(prefix="/tmp/mutw.")
            subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
            os.makedirs(d + "/verif/evidence"); os.makedirs(d + "/verif/replays")
            subprocess.run(f"cp -a /verif/check /verif/checks /verif/harness /verif/tools /verif/known_findings.json /verif/properties.jsonl /verif/MANIFEST.json {d}/verif/", shell=True, check=True)
            json.dump(jobs[w::W], open(d + "/jobs.json", "w"))
            procs.append((d, subprocess.Popen(["unshare", "-m", "bash", "-c", f"mount --bind {d}/repo /repo; mount --bind {d}/verif /verif; cd /verif; exec python3 /verif/tools/mutate.py worker {d}/jobs.json {out}"])))
        for d, p in procs:
            p.wait(); shutil.rmtree(d)
        print("finished")
