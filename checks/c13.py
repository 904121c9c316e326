"""C13: argument kinds of actions. The expression parser is simulated over LLVM IR for every action name with symbolic arguments: what it stores for
each argument (index of a layer or layout, of the macro, action or command it has just stored, or a number) and which layers, counts of arguments and
operations it accepts is found out from its behaviour. The result is compared with the manual. The engine is then simulated for every operation, press
and release: each argument may only index the table of its kind (whole, not cut to fewer bits than the table needs), numbers are only used as
numbers of their own signedness, arguments of a nested action only where the nested operation is known to take that kind there, and every argument is used."""
import os, re
from seq import *
from c20 import follow
from c10 import lin
import c28

NONNULL = (1, 1 << 62, frozenset())
ASSUMPTIONS = ["the manual (docs/keyd.scdoc) states the actions and the kinds of their arguments",
               "a configuration's tables are only changed by the parser"]
CFILE = "src/config.c"
TABLES = {"layers": "layer", "layer_state": "layer", "macros": "macro", "descriptors": "action", "commands": "command", "keystate": "key", "keymap": "key"}
HELD = ("config_get_layer_index", "parse_key_sequence", "parse_command", "parse_macro_expression", "parse_fn")


# ---------------------------------------------------------------- the manual

def kindof(word):
    w = word.strip().lower()
    if "timeout" in w:
        return "number"
    if "command" in w:
        return "command"
    for k in ("layout", "layer", "macro", "action"):
        if re.fullmatch(k + r"( ?\d+)?", w):
            return k
    if w == "key":
        return "action"
    return None


def manual(repo):
    """{action: (list of argument words, description)}"""
    t = open(os.path.join(repo, "docs/keyd.scdoc")).read()
    r = re.search(r"^# ACTIONS\n(.*?)^# ", t, re.M | re.S)
    out, cur = {}, None
    for line in (r.group(1) if r else "").split("\n"):
        h = re.match(r"\*(\w+)\((.*)\)\*\s*$", line)
        if h:
            cur = h.group(1)
            out[cur] = (re.findall(r"<([^>]*)>", h.group(2)), [])
        elif cur:
            out[cur][1].append(line)
    return out


# ---------------------------------------------------------------- the parser

class Fn(Seq):
    """parse_descriptor() for one action name. tags ('arg', j, value, width, ins) ('op', v) ('sub', j, address) ('mac', j, address) ('copy', dst, src)
    ('cnt', field, v) ('choice', j, which) ('call2', text)"""
    split_selects = True

    def setup(self, mode, name, nargs, ltype):
        self.mode, self.name, self.nargs, self.ltype = mode, name, nargs, ltype
        self.fnp = Sym("fn", 64, NONNULL)
        self.argp = [Sym(f"arg{j}", 64, NONNULL) for j in range(5)]
        self.got, self.unknown, self.expansions = [], set(), set()
        self.keyout, self.code, self.modsym = None, nargs, Sym("mods", 8)
        self.fnslot = self.nslot = self.aslot = None
        return self

    def seed(self, s):
        self.S, self.D, self.C = [("v", Sym(n, 64, NONNULL)) for n in ("expression", "descriptor", "config")]
        for a, v in zip(self.fn.args, (self.S, self.D, self.C)):
            s.env[a] = v

    def root(self, a):
        return a[1] if isinstance(a, tuple) and a[0] == "a" else a

    def argno(self, av):
        for j, p in enumerate(self.argp):
            if av == ("v", p):
                return j

    def ret(self, s, ins, v):
        self.put(s, ("force", ins, v))

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)

    # the first character of a non-empty expression
    def fresh_load(self, s, addr, ins):
        if not isinstance(addr, tuple):
            return ("v", ins)
        r, p = (addr[1], addr[2]) if addr[0] == "a" else (addr, ())
        if r == self.S and not p:
            return ("v", Sym("chr", 8, (1, 255, frozenset())))
        if addr == self.fnslot:
            return ("v", self.fnp)
        if addr == self.nslot:
            return self.nargs
        if self.keyout and addr == self.keyout[0]:
            return self.code
        if self.keyout and addr == self.keyout[1]:
            return ("v", self.modsym)
        if self.aslot is not None and r == self.root(self.aslot):
            b = self.aslot[2] if self.aslot[0] == "a" else ()
            if p[:len(b)] == b and len(p) <= len(b) + 1:
                j = p[len(b)][1] if len(p) > len(b) else 0
                if isinstance(j, int) and p[len(b):][:1] != () and p[len(b)][0] == "x" or len(p) == len(b):
                    return ("v", self.argp[j]) if j < self.nargs else ("v", Sym("unset", 64))
            return ("v", ins)
        if r == self.C:
            f = c28.last(addr)
            if f == "type" and c28.index_in(addr, "layers") is not None:
                return self.ltype
        return ("v", ins)

    def call_parse_key_sequence(self, s, ins, args):
        if args[0] == self.S:
            self.keyout = (args[1], args[2])
            self.ret(s, ins, 0 if self.mode == "key" else -1)

    def call_parse_command(self, s, ins, args):
        if args[0] == self.S:
            self.cmdout = args[1]
            self.put(s, ("cmd", args[1]))
            self.ret(s, ins, 0 if self.mode == "command" else -1)

    def call_parse_macro_expression(self, s, ins, args):
        j = self.argno(args[0])
        if j is not None:
            return self.fork(s, ins, ("mac", j, args[1]), (0, 1, -1))
        if args[0] == self.S:
            self.put(s, ("mac", "whole", args[1]))
            self.ret(s, ins, 0 if self.mode == "macro" else -1)

    def fork(self, s, ins, tag, vals):
        out = []
        for v in vals:
            t = s.copy()
            self.put(t, ("force", ins, v))
            if v == 0:
                self.put(t, tag)
            else:
                self.put(t, ("failed", tag[0], tag[1]))
            out.append(t)
        return out

    def call_parse_fn(self, s, ins, args):
        if self.mode != "fn":
            self.ret(s, ins, -1)
            return
        if args[0] == self.S:
            self.fnslot, self.aslot, self.nslot = args[1], args[2], args[3]
            self.ret(s, ins, 0)
        else:
            self.put(s, ("again", args[0]))
            self.ret(s, ins, -1)

    def call_parse_descriptor(self, s, ins, args):
        j = self.argno(args[0])
        if j is None:
            self.unknown.add("an action parsed from something else than an argument")
            return
        i = c28.index_in(args[1], "descriptors")
        if i is not None and not any(x[1] == "nr_descriptors" and nf1(x[2]) == plus1(i) for x in self.get(s, "cnt")):
            self.report(s, ins, "nested-slot", "a nested action is parsed into a slot that the actions within it use as well")
        return self.fork(s, ins, ("sub", j, args[1]), (0, -1))

    def number(self, s, ins, args):
        j = self.argno(args[0])
        if j is not None:
            self.ret(s, ins, ("v", self.numbers.setdefault(j, Sym(f"number{j}", 32))))
    numbers = None
    call_atoi = call_atol = call_strtol = call_strtoul = number

    def which(self, s, j, want=None):
        x = next((x[2] for x in self.get(s, "choice") if x[1] == j), None)
        return [x] if x else ["main", "other", "none"]

    def choose(self, s, ins, j, res):
        out = []
        for k in self.which(s, j):
            t = s.copy()
            self.put(t, ("choice", j, k), ("force", ins, res[k]))
            out.append(t)
        return out

    def call_config_get_layer_index(self, s, ins, args):
        j = self.argno(args[1])
        if j is not None:
            self.put(s, ("lay", j))
            return self.choose(s, ins, j, {"main": 0, "none": -1, "other": ("v", self.layers.setdefault(j, Sym(f"layer{j}", 32, (1, 31, frozenset()))))})
        n = strarg(self.mod, args[1])
        if n:
            self.put(s, ("force", ins, ("v", self.named.setdefault(n, Sym("layer " + n, 32, (1, 31, frozenset()))))))
    layers = named = None

    def compare(self, s, ins, args):
        for a, b in (args[:2], args[1::-1]):
            l = strarg(self.mod, b)
            if l is None:
                continue
            if a == ("v", self.fnp):
                self.ret(s, ins, 0 if l == self.name else 1)
                return
            j = self.argno(a)
            if j is not None:
                if l == "main":
                    return self.choose(s, ins, j, {"main": 0, "none": 1, "other": 1})
                self.ret(s, ins, 1)
                return
    call_strcmp = compare

    def call_strncmp(self, s, ins, args):
        self.unknown.add("names of actions are compared by their beginning")

    def call_snprintf(self, s, ins, args):
        f = strarg(self.mod, args[2])
        if f and "(" in f and "%s" in f and any(self.argno(a) is not None for a in args[3:]) and not (isinstance(args[0], tuple) and args[0][0] == "a" and args[0][1][0] == "g"):
            k = [self.argno(a) for a in args[3:]]
            if None in k or f.count("%") != len(k):
                self.unknown.add("an expansion that is not understood")
            else:
                it = iter(k)
                self.expansions.add(re.sub("%s", lambda _: f"<{next(it)}>", f))

    def on_other(self, s, ins, args, n):
        if n.startswith("llvm.memcpy"):
            self.put(s, ("copy", args[0], args[1]))

    def on_store(self, s, ins, addr, v):
        if not (isinstance(addr, tuple)):
            return
        r, p = (addr[1], addr[2]) if addr[0] == "a" else (addr, ())
        w = ins.ops[0].ty.a if ins.ops[0].ty.k == "int" else 64
        if r == self.D:
            f = [e for e in p if e[0] == "f"]
            if f and f[-1][1:] == ("descriptor", "op"):
                self.drop(s, lambda x: x[0] == "op")
                self.put(s, ("op", v))
            elif any(e[1:] == ("descriptor", "args") for e in f):
                j = next((e[1] for e in p if e[0] == "x"), 0)
                if isinstance(j, int):
                    self.drop(s, lambda x: x[0] == "arg" and x[1] == j)
                    self.put(s, ("arg", j, v, w, ins))
                else:
                    self.unknown.add("an argument is stored at an unknown place")
        elif r == self.C:
            f = c28.last(addr)
            if f and f.startswith("nr_"):
                self.put(s, ("cnt", f, v))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def nf1(v):
    t, c = lin(v)
    return tuple(sorted(((repr_(x), n) for x, n in t.items()))), c


def repr_(x):
    return repr(x)


def plus1(i):
    t, c = lin(i)
    return nf1_(t, c + 1)


def nf1_(t, c):
    return tuple(sorted(((repr_(x), n) for x, n in t.items()))), c


def parser(m):
    f = m.fn("parse_descriptor")
    if f is None:
        c = [x for x in m.fns.values() if x.file == CFILE and len(x.args) == 3 and x.src in {m.fns[i.callee.name].src for i in x.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns}]
        f = c[0] if len(c) == 1 else None
    return f


def setup(ctx):
    m = ctx.mod
    freeze(m)
    if not hasattr(m, "_c13"):
        f = ctx.need(parser(m), "the parser of actions was not found")
        for h in HELD:
            ctx.need(m.fn(h) is not None, f"{h} not found")
        if f.src != "parse_descriptor":
            setattr(Fn, "call_" + f.src, Fn.call_parse_descriptor)
        ctx.need(len(f.args) == 3, "the parser of actions takes other arguments")
        m._c13 = (inline(m, f, lambda c, ch: c.file == CFILE and c.src not in HELD and c is not f), f, ModSets(m))
    return m._c13


def one(ctx, mode, name, nargs, ltype):
    m = ctx.mod
    g, f, ms = setup(ctx)
    e = Fn(m, g, ms).setup(mode, name, nargs, ltype)
    e.numbers, e.layers, e.named = {}, {}, {}
    follow(e, g, m)
    e.run()
    ctx.count("parser_runs")
    ctx.count("states", e.npoints)
    return e


def rows(m):
    """{name: preferred name or None} of the table of actions."""
    for n, g in m.globals.items():
        out = {}
        if not isinstance(g.init, Agg):
            continue
        for el in g.init.elems:
            if isinstance(el, Agg) and len(el.elems) >= 3:
                b = m.cstr(el.elems[0]) if isinstance(strip(el.elems[0]), GRef) else None
                p = m.cstr(el.elems[1]) if isinstance(strip(el.elems[1]), GRef) else None
                if b and re.fullmatch(rb"[a-z]+\d?m?", b) and all(isinstance(x, (Const, Zero, Agg)) for x in el.elems[2:]):
                    out[b.decode()] = p.decode() if p else None
        if "overload" in out:
            return out
    return None


def literals(m, g):
    """Names compared within the parser and the table."""
    out = set()
    for i in g.insts():
        if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "strcmp":
            for o in i.ops[:2]:
                b = m.cstr(o) if isinstance(strip(o), GRef) else None
                if b:
                    out.add(b.decode("latin1"))
    return out


def index_of(addr, table):
    i = c28.index_in(addr, table)
    return None if i is None else nf1(i)


def classify(ctx, e, s, j, v, w):
    """Kind of the stored argument, or an explanation of what is wrong with it."""
    m = e.mod
    c = canon(v)
    for k, y in e.numbers.items():
        if c == ("v", y):
            if mincut(v) < w:
                return f"a number cut to {mincut(v)} bits"
            return ("number", w) if k == j else f"argument {k + 1}"
    for k, y in e.layers.items():
        if c == ("v", y):
            return ("layer", w) if k == j else f"argument {k + 1}"
    ch = {x[1]: x[2] for x in e.get(s, "choice")}
    if ch.get(j) == "main" and e.const(s, v) == 0:
        return ("layer", w)
    n = nf1(v)
    cnt = {(x[1], nf1(x[2])) for x in e.get(s, "cnt")}
    for table, kind, tag in (("macros", "macro", "mac"), ("descriptors", "action", "sub"), ("commands", "command", "cmd")):
        for x in e.get(s, tag):
            k, a = (x[1], x[2]) if tag != "cmd" else ("whole", x[1])
            if k not in (j, "whole"):
                continue
            dst = [a] + [y[1] for y in e.get(s, "copy") if same(y[2], a)]
            if any(index_of(d, table) == n for d in dst):
                t, c0 = lin(v)
                if ("nr_" + table, nf1_(t, c0 + 1)) not in cnt:
                    return f"a {kind} whose place is not taken (nr_{table} does not follow)"
                return (kind, w)
    return "something that is not the value of this argument"


def mincut(v):
    w = 64
    while isinstance(v, tuple) and v[0] in ("sx", "tr"):
        if v[0] == "tr":
            w = min(w, v[2])
        v = v[1]
    return w


def same(a, b):
    def norm(x):
        return x if x[0] == "a" else ("a", x, ())
    return isinstance(a, tuple) and isinstance(b, tuple) and norm(a) == norm(b)


def grammar(ctx):
    """{name: (op, kinds, widths)}"""
    m = ctx.mod
    if hasattr(m, "_c13g"):
        return m._c13g
    g, f, ms = setup(ctx)
    doc = manual(ctx.repo)
    R = rows(m)
    if R is None:
        ctx.undecide("deprecated names", "no table of actions was found")
    names = set(doc) | set(R or {}) | {x for x in literals(m, g) if re.fullmatch(r"[a-z]+\d?m?", x) and x != "main"}
    NORMAL, LAYOUT, COMP = m.enum("LT_NORMAL"), m.enum("LT_LAYOUT"), m.enum("LT_COMPOSITE")
    out = {}
    bad = []

    def violation(key, msg, **w):
        bad.append((key, msg, w))
    for name in sorted(names):
        if name in ("command", "macro"):
            continue
        found, exp = {}, set()
        for n in range(0, 6):
            for lt in (NORMAL, LAYOUT, COMP):
                e = one(ctx, "fn", name, n, lt)
                exp |= e.expansions
                for u in e.unknown:
                    ctx.undecide(name, u)
                for key, msg, ins, tr in e.bad:
                    violation(f"{key}:{name}", f"{name}: {msg}", where=m.where(ins), path=tr)
                for s, t in e.got:
                    if e.const(s, e.val(s, t.ops[0])) == 0:
                        found.setdefault(n, []).append((e, s, t, lt))
        if exp:
            out[name] = ("expands", exp)
            continue
        if not found:
            if name in doc or R and name in R:
                violation(f"unknown:{name}", f"{name} is not accepted with any number of arguments", where=(f.file, f.src))
            continue
        if len(found) > 1:
            violation(f"count:{name}", f"{name} is accepted with {' or '.join(map(str, sorted(found)))} arguments", where=(f.file, f.src))
            continue
        (n, runs), = found.items()
        opset, kinds, acc = set(), [set() for _ in range(n)], [set() for _ in range(n)]
        for e, s, t, lt in runs:
            w = dict(where=m.loc(t), path=trace_str(s.trace))
            o = e.get(s, "op")
            opset.add(e.const(s, o[0][1]) if o else None)
            st = {x[1]: x for x in e.get(s, "arg")}
            ch = {x[1]: x[2] for x in e.get(s, "choice")}
            for x in e.get(s, "failed"):
                violation(f"failed:{name}", f"{name} is accepted although its argument {x[2] + 1} is not", **w)
            for j in range(n):
                x = st.get(j)
                if x is None:
                    violation(f"unset:{name}:{j + 1}", f"{name} is accepted without a value for its argument {j + 1}", **w)
                    continue
                k = classify(ctx, e, s, j, x[2], x[3])
                if isinstance(k, str):
                    violation(f"value:{name}:{j + 1}", f"argument {j + 1} of {name} becomes {k}", where=m.where(x[4]), path=trace_str(s.trace))
                    continue
                kinds[j].add(k)
                if k[0] == "layer":
                    acc[j].add((ch.get(j, "any"), lt))
            idx = [x[2] for x in st.values()]
        ks = []
        for j in range(n):
            if len(kinds[j]) != 1:
                if kinds[j]:
                    violation(f"kinds:{name}:{j + 1}", f"argument {j + 1} of {name} is sometimes a {' and sometimes a '.join(sorted(k for k, w in kinds[j]))}", where=(f.file, f.src))
                ks.append((None, 0))
                continue
            (k, w), = kinds[j]
            if k == "layer":
                a = acc[j]
                if any(c in ("none", "any") for c, lt in a):
                    violation(f"nolayer:{name}", f"{name} accepts a layer that does not exist", where=(f.file, f.src))
                if ("other", LAYOUT) in a and ("other", NORMAL) not in a:
                    k = "layout"
                    if ("main", LAYOUT) not in a:
                        violation(f"main:{name}", f"{name} does not accept the layout main", where=(f.file, f.src))
                elif ("other", LAYOUT) in a:
                    violation(f"layout:{name}", f"{name} accepts layouts as well as layers", where=(f.file, f.src))
                elif any(c == "main" for c, lt in a):
                    violation(f"main:{name}", f"{name} accepts the layer main", where=(f.file, f.src))
            ks.append((k, w))
        if len(opset) != 1 or None in opset:
            violation(f"op:{name}", f"{name} becomes the operations {sorted(map(str, opset))}", where=(f.file, f.src))
            continue
        out[name] = (opset.pop(), tuple(ks))
    m._c13g = (out, doc, R, bad)
    return m._c13g


def shape(x):
    return tuple(k for k, w in x[1]) if x and x[0] != "expands" else None


def accepted(ctx):
    m = ctx.mod
    out, doc, R, bad = grammar(ctx)
    g, f, ms = setup(ctx)
    for key, msg, w in bad:
        ctx.violation(key, msg, **w)
    ctx.need(len(doc) >= 10, "the manual's list of actions was not found")
    where = dict(where=(f.file, f.src))
    for name, (words, text) in sorted(doc.items()):
        if name in ("command", "macro"):
            continue
        ctx.count("documented_actions")
        x = out.get(name)
        if x is None:
            continue        # reported
        want = tuple(kindof(w) for w in words)
        if None in want:
            ctx.undecide(name, f"the manual names an argument of an unknown kind ({words})")
            continue
        if x[0] == "expands":
            mt = re.search(r"\*(\w+\(.*\))\*", "\n".join(text))
            if not mt:
                ctx.undecide(name, "the manual does not give its expansion")
                continue
            exp = re.sub(r"<([^>]*)>", lambda q: f"<{words.index(q.group(1))}>" if q.group(1) in words else "<?>", mt.group(1))
            for y in x[1]:
                if y.replace(" ", "") != exp.replace(" ", ""):
                    ctx.violation(f"expansion:{name}", f"{name} expands to {y} instead of the documented {exp}", **where)
            continue
        if shape(x) != want and None not in shape(x):
            ctx.violation(f"documented:{name}", f"{name} takes {', '.join(map(str, shape(x))) or 'nothing'} instead of the documented {', '.join(want) or 'nothing'}", **where)
    for name, p in sorted((R or {}).items()):
        ctx.count("table_rows")
        if p is None:
            continue
        if p not in (R or {}) or p not in out:
            ctx.violation(f"preferred:{name}", f"{name} is said to be a former name of {p}, which does not exist", **where)
        elif name in out and (out[name][0] != out[p][0] or shape(out[name]) != shape(out[p])):
            ctx.violation(f"former:{name}", f"{name} does not mean the same as {p}, of which it is said to be a former name", **where)
    # different names, different operations - unless one is the former name of the other
    by = {}
    for name, x in sorted(out.items()):
        if x[0] != "expands":
            by.setdefault(x[0], []).append(name)
    for o, ns in by.items():
        base = [n for n in ns if not (R or {}).get(n)]
        if len(base) > 1:
            ctx.violation("same:" + "/".join(base), f"{' and '.join(base)} are carried out as the same operation", **where)
    for name, x in sorted(out.items()):
        q = name[:-1]
        if name.endswith("m") and q in out and x[0] != "expands" and out[q][0] != "expands":
            if shape(x)[:len(shape(out[q]))] != shape(out[q]) or shape(x)[len(shape(out[q])):] != ("macro",):
                ctx.violation(f"variant:{name}", f"{name} does not take the arguments of {q} and a macro", **where)


def plain(ctx):
    """Keys, commands and macros."""
    m = ctx.mod
    g, f, ms = setup(ctx)
    O = ops(m)
    for mode, want, kind in (("command", "OP_COMMAND", "command"), ("macro", "OP_MACRO", "macro")):
        e = one(ctx, mode, "?", 0, 0)
        n = 0
        for s, t in e.got:
            if e.const(s, e.val(s, t.ops[0])) != 0:
                continue
            n += 1
            w = dict(where=m.loc(t), path=trace_str(s.trace))
            o = e.get(s, "op")
            if not o or e.const(s, o[0][1]) != O[want]:
                ctx.violation(f"plain-op:{mode}", f"a {mode} becomes another operation", **w)
                continue
            x = next((x for x in e.get(s, "arg") if x[1] == 0), None)
            k = classify(ctx, e, s, 0, x[2], x[3]) if x else "missing"
            if isinstance(k, str) or k[0] != kind:
                ctx.violation(f"plain:{mode}", f"the argument of a {mode} becomes {k if isinstance(k, str) else k[0]}", **w)
        if not n:
            ctx.violation(f"plain-none:{mode}", f"a {mode} is never accepted", where=(f.file, f.src))
    for code in range(1, 256):
        e = one(ctx, "key", "?", code, 0)
        n = 0
        for s, t in e.got:
            if e.const(s, e.val(s, t.ops[0])) != 0:
                continue
            n += 1
            ctx.count("keys")
            w = dict(where=m.loc(t), path=trace_str(s.trace))
            o = e.get(s, "op")
            o = e.const(s, o[0][1]) if o else None
            a = {x[1]: x[2] for x in e.get(s, "arg")}
            if o == O["OP_LAYER"]:
                if canon(a.get(0)) not in [("v", y) for y in e.named.values()]:
                    ctx.violation("key-layer", f"key {code} stands for a layer whose index is not looked up", **w)
            elif o != O["OP_KEYSEQUENCE"]:
                ctx.violation("key-op", f"key {code} becomes another operation", **w)
            else:
                if e.const(s, a.get(0, 0)) != code:
                    ctx.violation("key-code", f"key {code} becomes another key", **w)
                if canon(a.get(1)) != ("v", e.modsym):
                    ctx.violation("key-mods", f"the modifiers of key {code} are not kept", **w)
        if not n:
            ctx.violation("key-none", f"key {code} is never accepted", where=(f.file, f.src))


# ---------------------------------------------------------------- the engine

class Sinks(Seq):
    """Where the arguments of an action go. self.uses: {(owner, j): {(kind, width cut or None, signed, ins, trace)}}"""
    split_selects = True

    def setup(self, op, pressed, graphs, sigs, tables):
        self.op, self.pressed, self.graphs, self.sigs, self.tables = op, pressed, graphs, sigs, tables
        self.argsym, self.uses, self.effs, self.moves, self.opsym = {}, {}, set(), [], {}
        return self

    def seed(self, s):
        self.darg = None
        if self.op is None:
            return
        de = DescEngine(self.mod, self.fn, self.ms, self.op, self.pressed)
        self.darg, self.parg = de.roles()
        s.env[self.parg] = self.pressed
        s.mem[(("a", ("v", self.darg), (("f", "descriptor", "op"),)), 4)] = self.op

    def _mayalias(self, a, b):
        if self.darg is None:
            return Seq._mayalias(self, a, b)
        return DescEngine._mayalias(self, a, b)

    def owner(self, addr):
        """(address of the descriptor, j) of an argument."""
        p = addr[2]
        for k, e in enumerate(p):
            if e[0] == "f" and e[1:] == ("descriptor", "args"):
                j = p[k + 1][1] if k + 1 < len(p) and p[k + 1][0] == "x" else 0
                return (addr[1], p[:k]), j
        return None, None

    def fresh_load(self, s, addr, ins):
        if not (isinstance(addr, tuple) and addr[0] == "a"):
            return ("v", ins)
        o, j = self.owner(addr)
        if o and isinstance(j, int) and ins.ty.k == "int":
            k = (o, j, ins.ty.a)
            y = self.bysym.get(k)
            if y is None:
                y = self.bysym[k] = Sym(f"arg{j + 1}", ins.ty.a)
                self.argsym[y] = (o, j)
            return ("v", y)
        return ("v", ins)

    bysym = None

    def extra_key(self, s, block):
        # a choice between arguments is followed on each side
        if not hasattr(self, "_phis"):
            self._phis = [i for i in self.fn.insts() if i.op == "phi"]
        return tuple((p.uid, repr(s.env[p])) for p in self._phis if p in s.env and isinstance(s.env[p], tuple) and self.symsin(s.env[p]))

    def symsin(self, av, out=None, signed=False):
        """{(owner, j): (signed, width it was cut to)} for the argument symbols inside a term."""
        out = {} if out is None else out

        def go(x, sx, cut):
            if isinstance(x, tuple):
                if x and x[0] == "v" and len(x) == 2 and x[1] in self.argsym:
                    out[self.argsym[x[1]]] = (sx, min(cut, x[1].ty.a))
                elif x and x[0] == "sx":
                    go(x[1], True, cut)
                elif x and x[0] == "tr":
                    go(x[1], sx, min(cut, x[2]))
                else:
                    for y in x:
                        go(y, sx, cut)
        go(av, signed, 64)
        return out

    def use(self, s, ins, key, kind, signed, cut):
        o, j = key
        lim = self.opsof(s, o)
        self.uses.setdefault((o, j, kind, lim), (signed, cut, ins, trace_str(s.trace)))

    def opsof(self, s, o):
        """What is known about the operation of a nested action: the set of possible ones, or None."""
        if o[0] == ("v", self.darg) and not o[1]:
            return None
        v = peek(self, s, ("a", o[0], o[1] + (("f", "descriptor", "op"),)), 4)
        if v is None:
            return frozenset(range(256))
        l, h, ex = self.rng(s, v)
        if h - l > 255:
            l, h = max(l, 0), min(h, 255)
        return frozenset(x for x in range(int(l), int(h) + 1) if x not in ex)

    def scan(self, s, ins, av):
        """An address (or value) handed on."""
        if not isinstance(av, tuple):
            return
        if av[0] == "a":
            p = av[2]
            for k, e in enumerate(p):
                if e[0] != "x" or isinstance(e[1], int):
                    continue
                y = self.symsin(e[1])
                if not y:
                    continue
                f = p[k - 1][2] if k and p[k - 1][0] == "f" else None
                kind = TABLES.get(f, f"[{f}]")
                exact = canon(e[1])
                for key, (sg, cut) in y.items():
                    if exact[0] != "v" or len(y) > 1:
                        kind2 = "offset of " + kind
                    else:
                        kind2 = kind
                    size = self.tables.get(f)
                    self.use(s, ins, key, kind2, sg, cut if size is not None and (1 << cut) < size else None)
        elif av[0] == "v" and av[1] in self.argsym:
            pass
        else:
            for key, (sg, cut) in self.symsin(av).items():
                if av[0] in ("sx", "tr"):
                    continue
                self.use(s, ins, key, "number", sg, cut)

    def on_inst(self, s, ins):
        if ins.op in ("load", "store"):
            self.scan(s, ins, self.val(s, ins.ops[-1] if ins.op == "store" else ins.ops[0]))
        elif ins.op == "call":
            for k, o in enumerate(ins.ops):
                self.scan(s, ins, self.val(s, o))
        return Seq.on_inst(self, s, ins)

    def after_inst(self, s, ins):
        if ins.op == "getelementptr" and ins in s.env:
            self.scan(s, ins, s.env[ins])

    def on_branch(self, s, t, c, want):
        self.cond(s, t, self.val(s, c) if not isinstance(c, tuple) else c)

    def cond(self, s, t, av):
        if isinstance(av, tuple):
            if av[0] == "not":
                self.cond(s, t, av[1])
            elif av[0] == "cmp":
                for key, (sg, cut) in self.symsin((av[2], av[3])).items():
                    self.use(s, t, key, "compared", sg, cut)

    def on_store(self, s, ins, addr, v):
        p = addr[2] if isinstance(addr, tuple) and addr[0] == "a" else ()
        f = tuple(e[1:] for e in p if e[0] == "f")
        if f:
            self.effs.add(("st", f))
        y = self.symsin(v)
        if not y:
            o, j = self.owner(addr) if isinstance(addr, tuple) and addr[0] == "a" else (None, None)
            if o:
                self.put(s, ("set", o, j))
            return
        if isinstance(v, tuple) and v[0] == "a":
            return self.scan(s, ins, v)
        o, j = self.owner(addr) if isinstance(addr, tuple) and addr[0] == "a" else (None, None)
        if o:
            self.put(s, ("moved", o, j, v, ins))
            return
        for key, (sg, cut) in y.items():
            last = f[-1][-1] if f else None
            if f and f[-1][0] in ("keyboard", "cache_entry") or len(f) > 1:
                self.use(s, ins, key, "field " + last if canon(v)[0] == "v" else "number", sg, cut)

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is None:
            return
        self.effs.add(("call", f.src))
        for k, a in enumerate(args):
            y = self.symsin(a)
            if not y or isinstance(a, tuple) and a[0] == "a":
                continue
            if canon(a)[0] != "v":
                continue
            for key, (sg, cut) in y.items():
                for kind, size in self.summary(f, k):
                    self.use(s, ins, key, kind, sg, cut if size is not None and (1 << cut) < size else None)

    def summary(self, f, k, depth=0):
        """What a function does with its k-th parameter."""
        cache = self.sigs
        if (f.name, k) in cache:
            return cache[(f.name, k)]
        cache[(f.name, k)] = set()
        out = set()
        out = self.flows(f, f.args[k] if k < len(f.args) else None, depth)
        cache[(f.name, k)] = out
        return out

    def flows(self, f, v, depth=0):
        """What a value ends up selecting from."""
        out = set()
        flow, work = set(), [v]
        while work:
            x = work.pop()
            if x is None or x in flow:
                continue
            flow.add(x)
            for i in f.insts():
                ops_ = [v for v, b in i.incoming] if i.op == "phi" else i.ops
                if x in ops_ and i.op in ("zext", "sext", "trunc", "phi", "select", "add", "sub"):
                    work.append(i)
        for i in f.insts():
            if i.op == "getelementptr":
                for q, o in enumerate(i.ops[1:]):
                    if o in flow:
                        t = self.tableof(i, q)
                        if t:
                            out.add((TABLES.get(t, f"[{t}]"), self.tables.get(t)))
            elif i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in self.mod.fns:
                for q, o in enumerate(i.ops):
                    if o in flow:
                        out |= self.summary(self.mod.fns[i.callee.name], q, depth + 1)
            elif i.op == "call" and any(o in flow for o in i.ops):
                out.add(("number", None)) if not isinstance(i.callee, GRef) else None
        return out

    def tableof(self, gep, q):
        """Name of the array field the q-th index of a gep selects from."""
        m = self.mod
        t, last = gep.ety, None
        b = strip(gep.ops[0])
        if isinstance(b, Inst) and b.op == "getelementptr":
            last = self.tableof(b, len(b.ops) - 1)
        if q == 0:
            return last
        for k, o in enumerate(gep.ops[2:], 1):
            if k == q:
                return last
            if t.k == "named":
                i = o.v if isinstance(o, Const) else 0
                fl = m.field(t.a, i)
                last = fl[1] if fl else None
                t = m.resolve(t).a[i]
            elif t.k == "arr":
                t = t.b
        return last

    def on_exit(self, s, t):
        if t.op == "ret":
            for x in self.get(s, "moved"):
                _, o, j, v, ins = x
                op = peek(self, s, ("a", o[0], o[1] + (("f", "descriptor", "op"),)), 4)
                self.moves.append((o, j, self.symsin(v), None if op is None else self.const(s, op), ins, trace_str(s.trace),
                                   {y[2] for y in self.get(s, "moved") if y[1] == o} | {y[2] for y in self.get(s, "set") if y[1] == o}))


def tablesizes(m):
    out = {}
    for d, names in m.fields.values():
        for f in names:
            if f in TABLES:
                t = m.fieldty(d, f)
                if t.k == "arr":
                    out[f] = t.a if isinstance(t.a, int) else t.b
    return out


def use(ctx, op, pressed):
    m = ctx.mod
    if not hasattr(m, "_c13u"):
        d, ev = descriptor_fn(m), event_fn(m)
        stop = {d, ev, m.fn("kbd_process_events")}
        m._c13u = (inline(m, d, lambda c, ch: c.file == KFILE and c not in stop and not CFG(c).loops), d, ModSets(m), tablesizes(m), {})
    g, d, ms, tab, sigs = m._c13u
    e = Sinks(m, g, ms).setup(op, pressed, None, sigs, tab)
    e.bysym = {}
    e.run()
    ctx.count("operation_runs")
    ctx.count("states", e.npoints)
    return e


SUBS = {"layout": "layer", "layer": "layer", "macro": "macro", "action": "action", "command": "command"}


def carried(ctx):
    m = ctx.mod
    out, doc, R, bad = grammar(ctx)
    O = ops(m)
    sig, name = {}, {}
    for n, x in sorted(out.items()):
        if x[0] == "expands":
            continue
        if x[0] in sig and shape((0, sig[x[0]])) != shape(x):
            ctx.violation(f"signature:{n}", f"{n} and {name[x[0]]} are the same operation with different arguments", where=setup(ctx)[1].file)
            continue
        sig.setdefault(x[0], x[1])
        if not (R or {}).get(n):
            name[x[0]] = n
        name.setdefault(x[0], n)
    sig[O["OP_MACRO"]], name[O["OP_MACRO"]] = (("macro", 16),), "macro"
    sig[O["OP_COMMAND"]], name[O["OP_COMMAND"]] = (("command", 16),), "command"
    sig[O["OP_KEYSEQUENCE"]], name[O["OP_KEYSEQUENCE"]] = (("key", 8), ("mods", 8)), "a key"
    ctx.count("operations", len(sig))
    ctx.pmap(lambda c, op: operation(c, op, sig, name), sorted(sig))


def fieldkinds(m):
    """{field of the engine's state: tables its value selects from}"""
    if hasattr(m, "_c13f"):
        return m._c13f
    out = {}
    e = Sinks(m, m._c13u[0], m._c13u[2]).setup(None, 0, None, m._c13u[4], m._c13u[3])
    for f in m.fns.values():
        if f.file != KFILE:
            continue
        for i in f.insts():
            if i.op == "load" and i.ty.k == "int" and isinstance(strip(i.ops[0]), Inst) and strip(i.ops[0]).op == "getelementptr":
                fld = e.tableof(strip(i.ops[0]), len(strip(i.ops[0]).ops))
                if fld:
                    ks = e.flows(f, i)
                    if ks:
                        out.setdefault(fld, set()).update(k for k, z in ks)
    m._c13f = out
    return out


def fits(kind, want, m):
    if want is None:
        return True
    if kind.startswith("field ") and want in SUBS:
        return SUBS[want] in fieldkinds(m).get(kind[6:], ())
    if kind.startswith("field ") or kind == "compared":
        return True
    if want == "number":
        return kind == "number"
    if want == "mods":
        return not kind.startswith("offset") and kind not in TABLES.values()
    if want == "key":
        return kind not in ("layer", "macro", "action", "command")
    return kind == SUBS[want] or kind in ("compared",)


def operation(ctx, op, sig, name):
    m = ctx.mod
    n = name[op]
    used = set()
    eff = set()
    for pressed in (1, 0):
        e = use(ctx, op, pressed)
        idle = use(ctx, 255, pressed)
        eff |= {(x, pressed) for x in e.effs - idle.effs} or {(x, pressed) for x in e.effs ^ idle.effs}
        for (o, j, kind, lim), (sg, cut, ins, tr) in sorted(e.uses.items(), key=repr):
            w = dict(where=m.where(ins), path=tr)
            if lim is None:
                cands = [(op, sig[op])]
            else:
                cands = [(x, sig.get(x, ())) for x in sorted(lim) if x in sig]
            for x, ks in cands:
                ctx.count("argument_uses")
                if j >= len(ks):
                    if lim is None:
                        ctx.violation(f"beyond:{n}:{j + 1}", f"{n} takes no argument {j + 1}, which is used as a {kind}", **w)
                    else:
                        ctx.violation(f"nested:{n}:{name[x]}", f"argument {j + 1} of an action nested in {n} is used as a {kind} though {name[x]}, which it may be, has no such argument", **w)
                    continue
                k, width = ks[j]
                if not fits(kind, k, m):
                    if kind.startswith("[") and k in ("key", "mods"):
                        continue
                    if lim is None:
                        ctx.violation(f"kind:{n}:{j + 1}", f"argument {j + 1} of {n}, a {k}, is used as a {kind}", **w)
                    else:
                        ctx.violation(f"nested:{n}:{name[x]}", f"argument {j + 1} of an action nested in {n} is used as a {kind} although it may be a {k} (of {name[x]})", **w)
                elif k == "number" and lim is None:
                    if sg and "imeout" in " ".join(doc_words(ctx, n, j)):
                        ctx.violation(f"signed:{n}:{j + 1}", f"argument {j + 1} of {n}, a time, is taken as a signed number", **w)
                    elif cut < width:
                        ctx.violation(f"cut:{n}:{j + 1}", f"argument {j + 1} of {n} is cut to {cut} bits", **w)
                elif cut is not None and k in SUBS and kind == SUBS[k]:
                    ctx.violation(f"cut:{n}:{j + 1}", f"argument {j + 1} of {n}, a {k}, is cut to {cut} bits", **w)
            if lim is None:
                used.add(j)
        for o, j, ys, nop, ins, tr, have in e.moves:
            w = dict(where=m.where(ins), path=tr)
            for k in range(len(sig.get(nop, ()))):
                if k not in have:
                    ctx.violation(f"made-unset:{n}", f"{n} makes up the action {name.get(nop, nop)} without its argument {k + 1}", **w)
            for (o2, j2), (sg, cut) in ys.items():
                if o2[0] != ("v", e.darg) or o2[1]:
                    continue
                used.add(j2)
                k = sig[op][j2][0] if j2 < len(sig[op]) else None
                if nop is None:
                    ctx.undecide(f"action made up for {n}", "its operation is not known")
                    continue
                ks = sig.get(nop, ())
                want = ks[j][0] if j < len(ks) else None
                if k is None or want is None or SUBS.get(k, k) != SUBS.get(want, want):
                    ctx.violation(f"made:{n}:{j2 + 1}", f"argument {j2 + 1} of {n}, a {k}, becomes argument {j + 1} of {name.get(nop, nop)}, a {want}", **w)
                size = e.tables.get({"layer": "layers", "layout": "layers", "macro": "macros", "action": "descriptors", "command": "commands"}.get(k))
                if size and (1 << cut) < size:
                    ctx.violation(f"cut:{n}:{j2 + 1}", f"argument {j2 + 1} of {n}, a {k}, is cut to {cut} bits", **w)
    d = m._c13u[1]
    for j, (k, wd) in enumerate(sig[op]):
        if j not in used and k is not None:
            ctx.violation(f"ignored:{n}:{j + 1}", f"argument {j + 1} of {n} is never used", where=(d.file, d.src))
    if not eff:
        ctx.violation(f"idle:{n}", f"{n} has no effect: the engine does not carry it out", where=(d.file, d.src))


def doc_words(ctx, n, j):
    d = manual(ctx.repo).get(n)
    return [d[0][j]] if d and j < len(d[0]) else []


def run(ctx):
    ctx.rule("each action is accepted with the documented arguments, and each argument is stored as a value of its kind", accepted)
    ctx.rule("commands and macros are stored in their tables and referred to by their place", plain)
    ctx.rule("the engine uses each argument as the kind that was accepted", carried)
