"""Development aid (not used by any check): generates AST mutants of /repo/yangson,
keeps those the repository's own tests do not notice.

  mutate.py gen OUT.jsonl            -> list of mutants (file, line, desc, source segment edits)
  mutate.py run IN.jsonl OUT.jsonl   -> run pytest on each, 8 workers, record survivors
"""
import ast, sys, json, os, subprocess, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor
import threading

REPO = "/repo"
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"],
       ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Mod: ["*"],
       ast.BitOr: ["&"], ast.BitAnd: ["|"], ast.FloorDiv: ["/"]}

def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    def pos(n): return offs[n.lineno-1] + n.col_offset
    def end(n): return offs[n.end_lineno-1] + n.end_col_offset
    def seg(n): return b[pos(n):end(n)].decode()
    out = []
    fn = [None]
    def add(n, s, e, new, desc):
        out.append(dict(file=os.path.relpath(path, REPO), line=n.lineno, func=fn[0],
                        s=s, e=e, new=new, desc=desc, old=b[s:e].decode()))
    def isdoc(st):
        return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
    def visit(n, stack):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            old = fn[0]
            fn[0] = (old + "." if old else "") + n.name
            for d in n.body:
                visit(d, stack)
            if isinstance(n, ast.FunctionDef):
                a = n.args
                for d in a.defaults:
                    pass
            fn[0] = old
            return
        if isinstance(n, ast.AnnAssign):
            if n.value: visit(n.value, stack)
            return
        if fn[0] is not None:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = n.left, n.comparators[0]
                for o in CMP[type(n.ops[0])]:
                    add(n, end(l), pos(r), f" {o} ", "cmp")
            if isinstance(n, ast.BoolOp):
                for i in range(len(n.values)-1):
                    l, r = n.values[i], n.values[i+1]
                    gap = b[end(l):pos(r)].decode()
                    if isinstance(n.op, ast.And) and "and" in gap:
                        add(n, end(l), pos(r), gap.replace("and", "or"), "and->or")
                    if isinstance(n.op, ast.Or) and "or" in gap:
                        add(n, end(l), pos(r), gap.replace("or", "and"), "or->and")
                for v in n.values:
                    add(v, pos(n), end(n), "(" + seg(v) + ")", "boolop keep one")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, pos(n), end(n), "(" + seg(n.operand) + ")", "drop not")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                add(n, pos(n), end(n), "(" + seg(n.operand) + ")", "drop minus")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                gap0, gap1 = end(n.left), pos(n.right)
                for o in BIN[type(n.op)]:
                    add(n, gap0, gap1, f" {o} ", "binop")
            if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                add(n, end(n.target), pos(n.value), f" = ", "aug->assign")
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                add(n.test, pos(n.test), end(n.test), "(not (" + seg(n.test) + "))", "negate")
                if not isinstance(n, ast.While):
                    add(n.test, pos(n.test), end(n.test), "True", "cond true")
                add(n.test, pos(n.test), end(n.test), "False", "cond false")
            if isinstance(n, ast.comprehension):
                for c in n.ifs:
                    add(c, pos(c), end(c), "True", "comp cond true")
                    add(c, pos(c), end(c), "(not (" + seg(c) + "))", "comp cond neg")
            if isinstance(n, ast.Constant):
                if n.value is True: add(n, pos(n), end(n), "False", "const")
                elif n.value is False: add(n, pos(n), end(n), "True", "const")
                elif isinstance(n.value, int):
                    add(n, pos(n), end(n), str(n.value+1), "const+1")
                    add(n, pos(n), end(n), str(n.value-1), "const-1")
                elif isinstance(n.value, str) and n.value and not any(isinstance(p, ast.JoinedStr) for p in stack):
                    add(n, pos(n), end(n), '""', "str empty")
            if isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    for i in range(len(n.args)-1):
                        x, y = n.args[i], n.args[i+1]
                        add(n, pos(x), end(y), seg(y) + b[end(x):pos(y)].decode() + seg(x), "swap args")
                if n.args and n.keywords == [] :
                    l = n.args[-1]
                    st = end(n.args[-2]) if len(n.args) > 1 else pos(l)
                    if not isinstance(l, (ast.GeneratorExp,)):
                        add(n, st, end(l), "", "drop last arg")
                for k in n.keywords:
                    pass
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy",) and not n.args:
                    add(n, pos(n), end(n), seg(n.func.value), "drop copy()")
                if isinstance(n.func, ast.Name) and n.func.id in ("reversed","sorted","list","str","set","int","float","frozenset","bool") and len(n.args)==1:
                    add(n, pos(n), end(n), "(" + seg(n.args[0]) + ")", "drop "+n.func.id)
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                add(n, pos(n.value), end(n.value), "None", "return None")
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Return, ast.Continue, ast.Break)) and not isdoc(n):
                add(n, pos(n), end(n), "pass", "drop stmt")
            if isinstance(n, ast.Continue): add(n, pos(n), end(n), "break", "cont->break")
            if isinstance(n, ast.Break): add(n, pos(n), end(n), "continue", "break->cont")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                sw = {"before": "after", "after": "before", "left": "right", "right": "left",
                      "popleft": "pop", "pop": "popleft", "appendleft": "append", "append": "appendleft",
                      "keys": "values", "values": "keys", "name": "ns", "ns": "name",
                      "config": "nonconfig", "nonconfig": "config", "syntax": "semantics", "semantics": "syntax",
                      "min_elements": "max_elements", "max_elements": "min_elements",
                      "extend": "append", "update": "clear", "parent": "schema_root", "top": "up", "first":"second","next":"previous"}
                if n.attr in sw:
                    add(n, end(n)-len(n.attr), end(n), sw[n.attr], "attr swap")
        for c in ast.iter_child_nodes(n):
            visit(c, stack + [n])
    for st in tree.body:
        visit(st, [])
    # dedup, syntax check
    seen = set(); res = []
    for m in out:
        k = (m["s"], m["e"], m["new"])
        if k in seen: continue
        seen.add(k)
        nb = b[:m["s"]] + m["new"].encode() + b[m["e"]:]
        try:
            t2 = ast.parse(nb.decode())
        except SyntaxError:
            continue
        if ast.dump(t2) == ast.dump(tree): continue
        res.append(m)
    return res

def apply(root, m):
    p = os.path.join(root, m["file"])
    b = open(os.path.join(REPO, m["file"]), "rb").read()
    open(p, "wb").write(b[:m["s"]] + m["new"].encode() + b[m["e"]:])

def restore(root, m):
    shutil.copy(os.path.join(REPO, m["file"]), os.path.join(root, m["file"]))

def main():
    if sys.argv[1] == "gen":
        allm = []
        for f in sorted(os.listdir(REPO + "/yangson")):
            if f.endswith(".py"):
                allm += mutants(REPO + "/yangson/" + f)
        for i, m in enumerate(allm): m["id"] = i
        with open(sys.argv[2], "w") as fo:
            for m in allm: fo.write(json.dumps(m) + "\n")
        print(len(allm))
    else:
        ms = [json.loads(l) for l in open(sys.argv[2])]
        W = 8
        roots = []
        for i in range(W):
            r = f"/tmp/mut/w{i}"
            shutil.rmtree(r, ignore_errors=True)
            shutil.copytree(REPO, r, ignore=shutil.ignore_patterns(".git"))
            roots.append(r)
        pool = list(roots); lock = threading.Lock()
        fo = open(sys.argv[3], "w")
        def one(m):
            with lock: r = pool.pop()
            try:
                apply(r, m)
                env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
                try:
                    p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"],
                        cwd=r, env=env, capture_output=True, timeout=40)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = -1
                m["rc"] = rc
                with lock:
                    fo.write(json.dumps(m) + "\n"); fo.flush()
            finally:
                restore(r, m)
                with lock: pool.append(r)
        with ThreadPoolExecutor(W) as ex:
            list(ex.map(one, ms))
main()
