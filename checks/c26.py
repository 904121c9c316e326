"""C26: the application mapper. The script's Python syntax tree is analysed: a flow-insensitive, interprocedural taint analysis follows window classes and
titles (parameters of the window-change callback and of the bus method, answers of the display server, lines of the extension's pipe) and the bindings of
the mapping file to every call that starts a program, runs code or opens a file; every path of the callback is followed to the one invocation of keyd; the
selection of bindings and the reading of the mapping file are checked for the tests and fresh lists they need. The GNOME extensions are searched for programs
started with anything that derives from a window."""
import ast, os, re

SCRIPT = "scripts/keyd-application-mapper"
SOURCES = {"recv_msg", "recv", "read_string", "get_full_property", "get_wm_class", "readline", "get_wm_name", "recvfrom", "recv_into", "next_event"}
BOOL = {"fnmatch", "fnmatchcase", "len", "isinstance", "bool", "startswith", "endswith", "isdigit", "hash", "any", "all", "print", "hasattr"}
EXEC = {"system", "popen", "execv", "execve", "execvp", "execvpe", "execl", "execlp", "execle", "spawnv", "spawnvp", "spawnl", "spawnlp", "spawnve", "posix_spawn", "posix_spawnp",
        "startfile", "fork_exec", "eval", "exec", "compile", "__import__", "import_module", "loads", "getoutput", "getstatusoutput", "check_output", "check_call", "Popen",
        "call", "run_module", "run_path", "putenv", "create_subprocess_exec", "create_subprocess_shell", "kill"}
SHELLS = {"sh", "bash", "dash", "zsh", "ksh", "fish", "env", "xargs", "eval", "python", "python3", "perl", "sudo", "su", "busybox", "awk", "nohup", "setsid", "timeout"}
ASSUMPTIONS = ["attributes set with setattr and code in the imported libraries are not followed"]


def name(f):
    """Dotted name of a function expression."""
    if isinstance(f, ast.Name):
        return f.id
    if isinstance(f, ast.Attribute):
        b = name(f.value)
        return (b + "." if b else "?.") + f.attr
    return ""


class Program:
    def __init__(self, text):
        self.tree = ast.parse(text)
        self.funcs, self.parent, self.scope = {}, {}, {}
        self.alias = {}
        self.walk(self.tree, None)
        self.taint = {"win": set(), "cfg": set()}      # (scope, variable) or ('ret', function)
        self.mods = {(a.asname or a.name).split(".")[0] for n in ast.walk(self.tree) if isinstance(n, ast.Import) for a in n.names}
        self.classes = {n.name: n for n in ast.walk(self.tree) if isinstance(n, ast.ClassDef)}

    def walk(self, n, sc):
        for c in ast.iter_child_nodes(n):
            self.parent[c] = n
            self.scope[c] = sc
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                if not isinstance(c, ast.Lambda):
                    self.funcs.setdefault(c.name, []).append(c)
                self.walk(c, c)
            else:
                if isinstance(c, ast.ImportFrom):
                    for a in c.names:
                        self.alias[a.asname or a.name] = (c.module or "") + "." + a.name
                if isinstance(c, ast.Import):
                    for a in c.names:
                        if a.asname:
                            self.alias[a.asname] = a.name
                self.walk(c, sc)

    def params(self, f):
        a = f.args
        return [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]

    def var(self, sc, v):
        """Scope that owns a variable."""
        while sc is not None:
            if v in self.params(sc):
                return sc, v
            if not isinstance(sc, ast.Lambda):
                glob = {g for n in ast.walk(sc) if isinstance(n, (ast.Global, ast.Nonlocal)) and self.scope.get(n) is sc for g in n.names}
                if v not in glob and any(isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store) and self.scope.get(n) is sc for n in ast.walk(sc)):
                    return sc, v
            sc = self.scope.get(sc)
        return None, v

    def full(self, f):
        n = name(f)
        h, _, t = n.partition(".")
        if h in self.alias:
            n = self.alias[h] + ("." + t if t else "")
        return n

    def targets(self, call):
        """Functions of the script a call may reach."""
        n = name(call.func)
        h, _, last = n.rpartition(".")
        if h:
            if h.split(".")[0] in self.mods:
                return []
            return [f for f in self.funcs.get(last, []) if isinstance(self.parent[f], ast.ClassDef)]
        return [f for f in self.funcs.get(last, []) if not isinstance(self.parent[f], ast.ClassDef)]

    def tainted(self, e, col):
        T = self.taint[col]
        if isinstance(e, ast.Name):
            return self.var(self.scope.get(e), e.id) in T
        if isinstance(e, ast.Attribute):
            return ("attr", e.attr) in T or self.tainted(e.value, col)
        if isinstance(e, (ast.Compare, ast.Constant)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return False
        if isinstance(e, ast.IfExp):
            return self.tainted(e.body, col) or self.tainted(e.orelse, col)
        if isinstance(e, ast.Call):
            n = name(e.func).split(".")[-1]
            if n in BOOL:
                return False
            if col == "win" and n in SOURCES:
                return True
            fs = self.targets(e)
            if fs:
                return any(("ret", f) in T for f in fs)
            if n in self.classes:
                return False
            return any(self.tainted(a, col) for a in e.args) or any(self.tainted(k.value, col) for k in e.keywords) or \
                isinstance(e.func, ast.Attribute) and self.tainted(e.func.value, col)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.tainted(e.elt, col)
        if isinstance(e, ast.DictComp):
            return self.tainted(e.key, col) or self.tainted(e.value, col)
        if isinstance(e, ast.Subscript):
            return self.tainted(e.value, col)
        if isinstance(e, ast.Lambda):
            return False
        if isinstance(e, ast.AST):
            return any(self.tainted(c, col) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.FormattedValue, ast.Starred)))
        return False

    def mark(self, t, col):
        """Taint an assignment target."""
        T = self.taint[col]
        if isinstance(t, ast.Name):
            T.add(self.var(self.scope.get(t), t.id))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.mark(x, col)
        elif isinstance(t, ast.Starred):
            self.mark(t.value, col)
        elif isinstance(t, ast.Subscript):
            self.mark(t.value, col)
        elif isinstance(t, ast.Attribute):
            T.add(("attr", t.attr))

    def fix(self, col):
        T = self.taint[col]
        while True:
            n = len(T)
            for e in ast.walk(self.tree):
                if isinstance(e, ast.Assign) and self.tainted(e.value, col):
                    for t in e.targets:
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(e.value, (ast.Tuple, ast.List)) and len(t.elts) == len(e.value.elts):
                            for x, v in zip(t.elts, e.value.elts):
                                if self.tainted(v, col):
                                    self.mark(x, col)
                        else:
                            self.mark(t, col)
                elif isinstance(e, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and e.value is not None and self.tainted(e.value, col):
                    self.mark(e.target, col)
                elif isinstance(e, (ast.For, ast.comprehension)) and self.tainted(e.iter, col):
                    self.mark(e.target, col)
                elif isinstance(e, ast.With):
                    for i in e.items:
                        if i.optional_vars is not None and self.tainted(i.context_expr, col):
                            self.mark(i.optional_vars, col)
                elif isinstance(e, (ast.Return, ast.Yield, ast.YieldFrom)) and e.value is not None and self.tainted(e.value, col):
                    T.add(("ret", self.scope.get(e)))
                elif isinstance(e, ast.Call):
                    fs = self.targets(e)
                    for f in fs:
                        ps = self.params(f)
                        if ps and ps[0] == "self" and isinstance(e.func, ast.Attribute):
                            ps = ps[1:]
                        for k, a in enumerate(e.args):
                            if self.tainted(a, col):
                                if isinstance(a, ast.Starred):
                                    T.update((f, p) for p in ps[k:])
                                elif k < len(ps):
                                    T.add((f, ps[k]))
                                elif f.args.vararg:
                                    T.add((f, f.args.vararg.arg))
                        for k in e.keywords:
                            if self.tainted(k.value, col) and k.arg:
                                T.add((f, k.arg))
                    if not fs and isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "extend", "add", "insert", "update", "setdefault", "appendleft", "put", "write") and \
                            any(self.tainted(a, col) for a in e.args):
                        self.mark(e.func.value, col)
            if len(T) == n:
                return


def callbacks(p):
    """Functions handed to the monitors as what is called on a window change."""
    out = []
    for e in ast.walk(p.tree):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and (e.func.id == "get_monitor" or e.func.id in p.classes):
            for a in list(e.args) + [k.value for k in e.keywords]:
                if isinstance(a, ast.Name) and a.id in p.funcs and p.var(p.scope.get(a), a.id)[0] is None:
                    out += p.funcs[a.id]
                elif isinstance(a, ast.Lambda):
                    out.append(a)
    return out


def starts(p, c):
    """Does a call start a program, run code, or set up what it does?"""
    n = p.full(c.func)
    last = n.split(".")[-1]
    if n.startswith("subprocess.") or n.startswith("os.exec") or n.startswith("os.spawn") or n.startswith("multiprocessing.") or n.startswith("asyncio.create_sub"):
        return True
    if n.startswith("os.") and last in EXEC or n in EXEC or n.startswith("pickle.") or n.startswith("importlib.") or n.startswith("runpy.") or n.startswith("pty.") or n.startswith("ctypes."):
        return True
    return False


def program(ctx):
    path = os.path.join(ctx.repo, SCRIPT)
    try:
        return Program(open(path, encoding="utf8").read())
    except (OSError, SyntaxError) as e:
        ctx.need(False, f"{SCRIPT} cannot be read: {e}")


def prepare(ctx):
    p = program(ctx)
    cbs = callbacks(p)
    ctx.need(cbs, "the function called on a window change was not found")
    T = p.taint["win"]
    for f in cbs:
        T.update((f, a) for a in p.params(f))
    for f in p.funcs.get("updateWindow", []):
        T.update((f, a) for a in p.params(f) if a != "self")
    for f, fs in p.funcs.items():
        for g in fs:
            if any(isinstance(d, ast.Call) and name(d.func).endswith("service.method") for d in g.decorator_list):
                T.update((g, a) for a in p.params(g) if a != "self")
    # what is read from the pipe of the extension
    for e in ast.walk(p.tree):
        if isinstance(e, ast.Attribute) and e.attr == "readline" and isinstance(e.value, ast.Name) and p.scope.get(e) is not None:
            for c in ast.walk(p.scope[e]):
                if isinstance(c, ast.For) and any(x is e for x in ast.walk(c.iter)):
                    p.mark(c.target, "win")
    p.fix("win")
    C = p.taint["cfg"]
    for f in p.funcs.get("parse_config", []):
        C.add(("ret", f))
    for e in ast.walk(p.tree):
        if isinstance(e, ast.Call) and name(e.func) == "open" and any(isinstance(x, ast.Name) and "CONFIG" in x.id for x in ast.walk(e)):
            C.add(("ret", p.scope.get(e)))
    p.fix("cfg")
    return p, cbs


def where(n):
    return dict(where=(SCRIPT, getattr(n, "lineno", 0)))


def sinks(ctx):
    p, cbs = prepare(ctx)
    for e in ast.walk(p.tree):
        if isinstance(e, ast.Call):
            ctx.count("calls")
            args = list(e.args) + [k.value for k in e.keywords]
            n = p.full(e.func)
            bad = any(p.tainted(a, "win") for a in args)
            if starts(p, e):
                ctx.count("program_starts")
                if bad or isinstance(e.func, ast.Attribute) and p.tainted(e.func.value, "win"):
                    ctx.violation(f"window-to:{n}", f"the class or title of a window is passed to {n}()", **where(e))
            elif n in ("open", "os.open", "os.remove", "os.unlink", "os.rename", "os.mkdir", "os.chmod", "os.symlink", "io.open", "shutil.rmtree", "shutil.copy") and e.args and p.tainted(e.args[0], "win"):
                ctx.violation(f"window-file:{n}", f"the class or title of a window names a file for {n}()", **where(e))
            elif n in ("getattr", "globals", "locals", "setattr", "delattr") and any(p.tainted(a, "win") for a in e.args[1:]):
                ctx.violation(f"window-name:{n}", "the class or title of a window names something of the program", **where(e))
            elif isinstance(e.func, ast.Subscript) and p.tainted(e.func.slice, "win"):
                ctx.violation("window-function", "the class or title of a window selects the function that is called", **where(e))
        elif isinstance(e, (ast.Assign, ast.AugAssign)):
            for t in e.targets if isinstance(e, ast.Assign) else [e.target]:
                if isinstance(t, ast.Subscript) and p.full(t.value) in ("os.environ", "environ") and (p.tainted(e.value, "win") or p.tainted(t.slice, "win")):
                    ctx.violation("window-environ", "the class or title of a window is put into the environment of the programs started", **where(e))


def values(p, e, depth=0):
    """Expressions a name may stand for."""
    if isinstance(e, ast.Name) and depth < 4:
        own = p.var(p.scope.get(e), e.id)
        vals = [n.value for n in ast.walk(p.tree) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and p.var(p.scope.get(t), t.id) == own for t in n.targets)]
        if vals and not (isinstance(own[0], ast.AST) and e.id in p.params(own[0])):
            return [w for v in vals for w in values(p, v, depth + 1)]
    return [e]


def flatten(p, e, depth=0):
    """Elements of a list expression: constants, ('*', expression), or None where unknown."""
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sub = [y for v in values(p, x.value) for y in [v]]
                if len(sub) == 1 and isinstance(sub[0], (ast.List, ast.Tuple)) and sub[0].elts:
                    out += flatten(p, sub[0], depth + 1)
                else:
                    out.append(("*", x.value))
            else:
                v = values(p, x)
                out.append(v[0].value if len(v) == 1 and isinstance(v[0], ast.Constant) else ("e", x))
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return flatten(p, e.left) + flatten(p, e.right)
    if isinstance(e, ast.Name):
        v = values(p, e)
        if len(v) == 1 and v[0] is not e and isinstance(v[0], (ast.List, ast.Tuple, ast.BinOp)):
            return flatten(p, v[0], depth + 1)
    return [("*", e)]


def reachable(p, roots):
    seen, work = [], list(roots)
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.append(f)
        for e in ast.walk(f):
            if isinstance(e, ast.Call):
                work += p.targets(e)
    return seen


def shells(ctx):
    """Bindings never reach a shell, and keyd is started from an argument vector."""
    p, cbs = prepare(ctx)
    fs = reachable(p, cbs)
    n = 0
    for f in p.funcs.values():
        pass
    for e in ast.walk(p.tree):
        if not isinstance(e, ast.Call) or not starts(p, e):
            continue
        args = list(e.args) + [k.value for k in e.keywords]
        inside = any(p.scope.get(e) is f or any(x is e for x in ast.walk(f)) for f in fs)
        cfg = any(p.tainted(a, "cfg") for a in args)
        if not inside and not cfg:
            continue
        n += 1
        full = p.full(e.func)
        sh = [k for k in e.keywords if k.arg == "shell" and not (isinstance(k.value, ast.Constant) and not k.value.value)]
        if sh or not full.startswith("subprocess.") and not full.startswith("os.exec") and not full.startswith("os.spawn") and not full.startswith("os.posix_spawn") or \
                full.split(".")[-1] in ("getoutput", "getstatusoutput"):
            ctx.violation("shell", f"bindings are applied through {full}(), which runs a shell or code", **where(e))
            continue
        if not full.startswith("subprocess."):
            ctx.undecide("applying bindings", f"through {full}()")
            continue
        vec = [k.value for k in e.keywords if k.arg == "args"] or e.args[:1]
        if not vec:
            continue
        for v in values(p, vec[0]):
            items = flatten(p, v)
            first = items[0] if items else None
            if isinstance(v, (ast.JoinedStr, ast.Constant)) or isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mod):
                ctx.violation("shell", "bindings are applied through a command line instead of an argument vector", **where(e))
            elif isinstance(first, str) and os.path.basename(first) in SHELLS:
                ctx.violation("shell", f"bindings are applied through {first}", **where(e))
            elif not isinstance(first, str):
                ctx.undecide("applying bindings", "the program started is not a constant")
            ctx.count("starts_on_window_change")
    ctx.need(n, "no program is started on a window change")


class Found(Exception):
    pass


def applies(p, s):
    """The calls of a simple statement or expression that start keyd bind, as (call, items)."""
    out = []
    for e in ast.walk(s):
        if isinstance(e, ast.Call) and p.full(e.func).startswith("subprocess."):
            vec = [k.value for k in e.keywords if k.arg == "args"] or e.args[:1]
            for v in vec:
                items = flatten(p, v)
                if isinstance(items[0], str) and os.path.basename(items[0]) == "keyd" and "bind" in items[:2]:
                    out.append((e, items))
    return out


def must(p, body, done, exits, fdone):
    """Follow the paths of a list of statements; the states in which it is left by falling through. done: has keyd been called?"""
    cur = {done}
    for s in body:
        nxt = set()
        for d in cur:
            if isinstance(s, ast.If):
                d2 = d or calls(p, s.test, fdone)
                nxt |= must(p, s.body, d2, exits, fdone) | must(p, s.orelse, d2, exits, fdone)
            elif isinstance(s, (ast.For, ast.While)):
                x = must(p, s.body, d, exits, fdone)
                nxt |= {d} | must(p, s.orelse, d, exits, fdone) if not (isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value) else x
            elif isinstance(s, ast.Try):
                a = must(p, s.body, d, exits, fdone)
                a = {z for y in a for z in must(p, s.orelse, y, exits, fdone)} if s.orelse else a
                for h in s.handlers:
                    # where what may fail is not the call itself
                    if calls(p, ast.Module(body=s.body[:1], type_ignores=[]), fdone):
                        a |= must(p, h.body, True, exits, fdone)
                    else:
                        a |= must(p, h.body, d, exits, fdone)
                nxt |= {z for y in a for z in must(p, s.finalbody, y, exits, fdone)} if s.finalbody else a
            elif isinstance(s, ast.With):
                nxt |= must(p, s.body, d, exits, fdone)
            elif isinstance(s, ast.Return):
                exits.append((s, d or s.value is not None and calls(p, s.value, fdone)))
            elif isinstance(s, ast.Raise):
                pass
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                nxt.add(d)
            elif isinstance(s, (ast.Break, ast.Continue)):
                nxt.add(d)
            else:
                nxt.add(d or calls(p, s, fdone))
        cur = nxt
    return cur


def calls(p, s, fdone):
    if applies(p, s):
        return True
    for e in ast.walk(s):
        if isinstance(e, ast.Call):
            fs = p.targets(e)
            if fs and all(always(p, f, fdone) for f in fs):
                return True
            if name(e.func).split(".")[-1] in ("exit", "_exit", "die"):
                return True
    return False


def always(p, f, seen):
    if f in seen:
        return False
    exits = []
    r = must(p, f.body, False, exits, seen | {f})
    return r <= {True} and all(d for s, d in exits)


def base(ctx):
    """Each window change starts keyd bind, with the reset first."""
    p, cbs = prepare(ctx)
    for f in cbs:
        if isinstance(f, ast.Lambda):
            if not calls(p, f.body, frozenset()):
                ctx.violation("skipped", "a window change does not apply the bindings", **where(f))
            continue
        exits = []
        r = must(p, f.body, False, exits, frozenset())
        for s, d in exits + [(f, d) for d in r]:
            ctx.count("paths")
            if not d:
                ctx.violation("skipped", "there is a path on which a window change does not start from the base bindings", **where(s))
    k = 0
    for f in reachable(p, cbs):
        for e, items in applies(p, f):
            k += 1
            i = items.index("bind")
            rest = items[i + 1:]
            if rest[:1] != ["reset"]:
                ctx.violation("reset", "the bindings of a window are applied without starting from the base bindings", **where(e))
            for x in rest[1:]:
                if isinstance(x, str) or isinstance(x, tuple) and not p.tainted(x[1], "cfg"):
                    ctx.violation("other", "something that is not a binding of the mapping file is applied", **where(e))
    ctx.need(k, "keyd bind is never started on a window change")


def guards(p, n, stop):
    """Conditions known true at a node: those of the enclosing ifs and of earlier 'if not x: continue'."""
    out = []

    def conj(t, pos):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return conj(t.operand, not pos)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And if pos else ast.Or):
            return [y for x in t.values for y in conj(x, pos)]
        if isinstance(t, ast.Name):
            v = values(p, t)
            if len(v) == 1 and v[0] is not t:
                return conj(v[0], pos)
        return [t] if pos else []
    while n is not stop and n is not None:
        q = p.parent.get(n)
        if isinstance(q, ast.If):
            if n in q.body:
                out += conj(q.test, True)
            elif n in q.orelse:
                out += conj(q.test, False)
        if isinstance(q, ast.IfExp):
            out += conj(q.test, n is q.body) if n is not q.test else []
        if isinstance(q, ast.BoolOp) and isinstance(q.op, ast.And):
            out += [y for x in q.values[:q.values.index(n)] for y in conj(x, True)]
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(q, fld, None)
            if isinstance(b, list) and n in b:
                for s in b[:b.index(n)]:
                    if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Continue, ast.Return, ast.Raise, ast.Break)) and not s.orelse:
                        out += conj(s.test, False)
        n = q
    return out


def selection(ctx):
    """Only the bindings of sections that match both class and title, from an empty list."""
    p, cbs = prepare(ctx)
    fs = [f for f in reachable(p, cbs) if not isinstance(f, ast.Lambda)]
    n = 0
    for f in fs:
        for e in ast.walk(f):
            # places where bindings of a section are collected
            loops, coll = [], None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("extend", "append", "insert") and e.args and p.tainted(e.args[-1], "cfg"):
                coll, acc, val = e, e.func.value, e.args[-1]
            elif isinstance(e, ast.AugAssign) and isinstance(e.op, ast.Add) and p.tainted(e.value, "cfg"):
                coll, acc, val = e, e.target, e.value
            elif isinstance(e, (ast.ListComp, ast.GeneratorExp)) and p.tainted(e.elt, "cfg"):
                coll, acc, val = e, None, e.elt
            if coll is None or f.name == "parse_config" or p.scope.get(e) is not f:
                continue
            n += 1
            ctx.count("collections")
            if acc is not None:
                if not isinstance(acc, ast.Name):
                    ctx.violation("kept", "the bindings of a window are added to something that outlives the window change", **where(e))
                else:
                    own = p.var(f, acc.id)
                    inits = [x for x in ast.walk(f) if isinstance(x, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == acc.id for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
                    if own[0] is not f or acc.id in p.params(f) and f.args.defaults and not inits:
                        ctx.violation("kept", "the bindings of a window are added to those of earlier windows", **where(e))
                    elif acc.id in p.params(f) and not inits:
                        ctx.undecide("selection", "the list of bindings comes from elsewhere")
                    elif any(p.tainted(x.value, "cfg") and not isinstance(x.value, (ast.List, ast.ListComp)) for x in inits):
                        ctx.violation("kept", "the bindings of a window are added to a list of the mapping itself", **where(e))
            g = guards(p, e, f)
            if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
                for gen in e.generators:
                    for t in gen.ifs:
                        g += t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]
            # positions of the variables of the loop in an entry
            pos = {}
            gens = [x for x in ast.walk(f) if isinstance(x, (ast.For, ast.comprehension)) and p.tainted(x.iter, "cfg")]
            for l in gens:
                if isinstance(l.target, ast.Tuple) and len(l.target.elts) == 3:
                    for i, t in enumerate(l.target.elts):
                        if isinstance(t, ast.Name):
                            pos[t.id] = i

            def entry(x):
                if isinstance(x, ast.Name):
                    return pos.get(x.id)
                if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant):
                    return x.slice.value
                return None
            ps = [x for x in p.params(f) if x != "self"]
            matched, odd = set(), False
            for t in g:
                if isinstance(t, ast.Call) and name(t.func).split(".")[-1] in ("fnmatch", "fnmatchcase") and len(t.args) == 2:
                    a, b = t.args
                    i = entry(b)
                    if i is not None and isinstance(a, ast.Name):
                        if a.id in ps and len(ps) >= 2 and ps.index(a.id) in (0, 1):
                            matched.add((ps.index(a.id), i))
                        else:
                            odd = True
                    else:
                        odd = True
                elif isinstance(t, ast.Call) and p.targets(t):
                    odd = True
                elif isinstance(t, ast.Call):
                    odd |= name(t.func).split(".")[-1] not in ("len", "isinstance")
            if {(0, 0), (1, 1)} <= matched:
                pass
            elif odd or not pos and not matched:
                ctx.undecide("selection", "the tests of class and title were not recognised")
            else:
                ctx.violation("unmatched", "bindings of a section are applied although its class or title was not matched against that of the window", **where(e))
            if matched and any(x == (0, 1) or x == (1, 0) for x in matched):
                ctx.violation("swapped", "a class is matched with the pattern for titles", **where(e))
    if not n:
        ctx.undecide("selection", "where bindings are collected was not found")


def reading(ctx):
    """Each section of the mapping file has bindings of its own, its class first, then its title."""
    p, cbs = prepare(ctx)
    for f in p.funcs.get("parse_config", []):
        for e in ast.walk(f):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "append" and e.args and isinstance(e.args[0], ast.Tuple) and len(e.args[0].elts) == 3:
                ctx.count("section_reads")
                c, t, b = e.args[0].elts
                if isinstance(b, ast.Name):
                    s = e
                    while not isinstance(p.parent[s], (ast.If, ast.For, ast.While, ast.FunctionDef)):
                        s = p.parent[s]
                    q = p.parent[s]
                    block = next(x for x in (q.body, getattr(q, "orelse", [])) if s in x)
                    fresh = [x for x in block[:block.index(s)] if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == b.id for y in x.targets) and
                             (isinstance(x.value, ast.List) and not x.value.elts or isinstance(x.value, ast.Call) and name(x.value.func) == "list" and not x.value.args)]
                    if not fresh:
                        ctx.violation("shared", "the sections of the mapping file share one list of bindings", **where(e))
                elif not (isinstance(b, ast.List) and not b.elts or isinstance(b, ast.Call)):
                    ctx.undecide("reading", "the list of a section's bindings")


def extensions(ctx):
    d = os.path.join(ctx.repo, "data")
    n = 0
    for sub in sorted(os.listdir(d)):
        fn = os.path.join(d, sub, "extension.js")
        if not os.path.isfile(fn):
            continue
        n += 1
        t = open(fn, encoding="utf8").read()
        bad = set()
        decl = re.findall(r"(?:const|let|var)?\s*([A-Za-z_]\w*)\s*=(?!=)\s*([^;\n]*)", t)
        while True:
            k = len(bad)
            for v, e in decl:
                if re.search(r"get_wm_class|get_title|get_description|focus_window|\bwm_class\b|\btitle\b", e) or any(re.search(rf"\b{re.escape(b)}\b", e) for b in bad):
                    bad.add(v)
            if len(bad) == k:
                break
        for r in re.finditer(r"\b((?:\w+\.)*(?:spawn\w*|trySpawn\w*|eval|Function|launch\w*|new_from_argv|Subprocess\.new|communicate\w*))\s*\(", t):
            lvl, j = 1, r.end()
            while j < len(t) and lvl:
                lvl += {"(": 1, ")": -1}.get(t[j], 0)
                j += 1
            arg = t[r.end():j - 1]
            ctx.count("extension_starts")
            bare = re.sub(r"'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"", "''", arg)
            if any(re.search(rf"\b{re.escape(b)}\b", bare) for b in bad) or re.search(r"get_wm_class|get_title|focus_window", bare):
                ctx.violation(f"extension:{sub}", f"the extension passes the class or title of a window to {r.group(1)}()", where=(f"data/{sub}/extension.js", t.count("\n", 0, r.start()) + 1))
    ctx.need(n, "the extensions were not found")


def run(ctx):
    ctx.rule("classes and titles are never executed nor arguments of a program", sinks)
    ctx.rule("bindings reach keyd as arguments, without a shell", shells)
    ctx.rule("each window change starts from the base bindings", base)
    ctx.rule("only bindings whose class and title match are applied", selection)
    ctx.rule("each section of the mapping file has its own bindings", reading)
    ctx.rule("the extensions start no program with a class or title", extensions)
