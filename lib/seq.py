"""Small typestate engine: the automaton state is a frozenset of facts; handlers are called for library calls by name."""
from kb import *


class Seq(Engine):
    handlers = {}          # call name -> method(s, ins, args, name)

    def __init__(self, mod, fn, ms=None):
        self.bad = []
        self.exits = []
        Engine.__init__(self, mod, fn, ms or ModSets(mod))

    def initial(self):
        return frozenset()

    def rename(self, auto, tok, stale):
        return frozenset(subst(x, tok, stale) if isinstance(x, tuple) else x for x in auto)

    def put(self, s, *xs):
        s.auto = s.auto | frozenset(xs)

    def drop(self, s, pred):
        s.auto = frozenset(x for x in s.auto if not pred(x))

    def get(self, s, tag):
        return [x for x in s.auto if isinstance(x, tuple) and x and x[0] == tag]

    def report(self, s, ins, key, msg):
        self.bad.append((key, msg, ins, trace_str(s.trace)))

    def callname(self, ins):
        if ins.op == "call" and isinstance(ins.callee, GRef):
            return ins.callee.name
        return None

    def on_inst(self, s, ins):
        if ins.op == "call":
            n = self.callname(ins)
            if ins.block in self.scc and ins.ty.k != "void":
                self.kill(s, ins)       # the previous iteration's result, before handlers mention the new one
                s.env.pop(ins, None)
            args = [self.val(s, o) for o in ins.ops]
            if n is None:
                return self.on_indirect(s, ins, args)
            h = getattr(self, "call_" + n, None)
            if h is None:
                f = self.mod.fns.get(n)
                if f is not None:
                    h = getattr(self, "call_" + f.src, None)
            if h is not None:
                self.events += 1
                return h(s, ins, args)
            return self.on_other(s, ins, args, n)
        if ins.op == "store":
            return self.on_store(s, ins, self.val(s, ins.ops[1]), self.val(s, ins.ops[0]))

    def on_other(self, s, ins, args, name):
        return None

    def on_indirect(self, s, ins, args):
        return None

    def on_store(self, s, ins, addr, v):
        return None

    def on_exit(self, s, t):
        self.exits.append((s, t))

    def flush(self, ctx, prefix=""):
        for key, msg, ins, tr in self.bad:
            ctx.violation(prefix + key, msg, self.mod.where(ins), tr)
        ctx.count("states", sum(len(x) for x in self.states.values()))
        ctx.count("events", self.events)

    def is0(self, s, av):
        return self.const(s, av) == 0

    def nonneg(self, s, av):
        return self.rng(s, av)[0] >= 0

    def neg(self, s, av):
        return self.rng(s, av)[1] < 0


def strarg(m, av):
    """The constant string an abstract pointer denotes, or None."""
    if isinstance(av, tuple) and av[0] == "a" and av[1][0] == "g" and not av[2]:
        g = m.globals.get(av[1][1])
        if g is not None and g.const and isinstance(g.init, Str):
            return g.init.b.split(b"\0")[0].decode("latin1")
    return None


def peek(e, s, addr, w):
    """What is known about the value at addr, or None."""
    v = s.mem.get((addr, w))
    if v is None and isinstance(addr, tuple) and addr[0] == "a":
        for k in range(len(addr[2]), -1, -1):
            ag = s.mem.get((("a", addr[1], addr[2][:k]), "agg"))
            if ag is not None:
                if ag[0] == "zero":
                    return 0
                src = ag[2] if len(ag) > 2 else None
                if isinstance(src, tuple) and src[0] == "g":
                    src = ("a", src, ())
                if isinstance(src, tuple) and src[0] == "a" and src[1][0] == "g":
                    return e._constload(("a", src[1], src[2] + addr[2][k:]), Ty("int", w * 8))
                return None
    return v


def defined(m, want=()):
    return lambda c, chain: True


_reach = {}


def libcalls(m, f):
    """Names of all undefined functions reachable from f through direct calls."""
    if not hasattr(m, "_lib"):
        m._lib = {}
    if f.name in m._lib:
        return m._lib[f.name]
    seen, work, out = {f.name}, [f], set()
    while work:
        g = work.pop()
        for i in g.insts():
            if i.op == "call" and isinstance(i.callee, GRef):
                n = i.callee.name
                if n in m.fns:
                    if n not in seen:
                        seen.add(n)
                        work.append(m.fns[n])
                else:
                    out.add(n)
    m._lib[f.name] = out
    return out


def reaching(m, libs, *extra):
    """Inline whatever (transitively) performs one of the given library calls."""
    libs = set(libs)
    return lambda c, chain: bool(libs & libcalls(m, c)) or c.src in extra


def callers(m, name):
    """(function, instruction) of every direct call of name (source or link name)."""
    out = []
    for f in m.fns.values():
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, GRef):
                n = i.callee.name
                if n == name or (n in m.fns and m.fns[n].src == name):
                    out.append((f, i))
    return out


class Sym:
    """A symbolic input of a simulation (usable as the second half of a ('v', x) token)."""
    _n = 0

    def __init__(self, name, bits=32, rng=None):
        Sym._n += 1
        self.range = rng
        self.name, self.ty, self.uid = name, Ty("int", bits), 10 ** 9 + Sym._n

    def __repr__(self):
        return "$" + self.name


def fdflow(m, sinks):
    """Which integer parameters of each program function reach the descriptor argument of one of the given library calls:
    {function name: set of parameter indices} (fixpoint over the call graph, through casts and phis)."""
    key = ("fdflow", tuple(sorted(sinks)))
    if not hasattr(m, "_fdflow"):
        m._fdflow = {}
    if key in m._fdflow:
        return m._fdflow[key]
    out = {f.name: set() for f in m.fns.values()}

    def origins(v):
        seen, st, r = set(), [v], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if isinstance(x, Arg):
                r.add(x)
            elif isinstance(x, Inst) and x.op in ("zext", "sext", "trunc"):
                st.append(x.ops[0])
            elif isinstance(x, Inst) and x.op == "phi":
                st += [v for v, _ in x.incoming]
            elif isinstance(x, Inst) and x.op == "select":
                st += x.ops[1:]
        return r
    ch = True
    while ch:
        ch = False
        for f in m.fns.values():
            idx = {a: k for k, a in enumerate(f.args)}
            for i in f.insts():
                if i.op != "call" or not isinstance(i.callee, GRef):
                    continue
                n = i.callee.name
                ks = out[n] if n in out else ({0} if n in sinks else ())
                for k in ks:
                    if k < len(i.ops):
                        for a in origins(i.ops[k]):
                            if a in idx and idx[a] not in out[f.name]:
                                out[f.name].add(idx[a])
                                ch = True
    m._fdflow[key] = out
    return out


def closure(m, f):
    """Source names of all program functions reachable from f through direct calls (f included)."""
    if not hasattr(m, "_clos"):
        m._clos = {}
    if f.name not in m._clos:
        seen, work = {f.name}, [f]
        while work:
            g = work.pop()
            for i in g.insts():
                if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns and i.callee.name not in seen:
                    seen.add(i.callee.name)
                    work.append(m.fns[i.callee.name])
        m._clos[f.name] = {m.fns[n].src for n in seen}
    return m._clos[f.name]


def freeze(m):
    """Mark the tables no instruction of the program writes, or hands out the address of, as constant."""
    if hasattr(m, "_frozen"):
        return
    m._frozen = True

    def grefs(o):
        if isinstance(o, GRef):
            return [o.name]
        if isinstance(o, CExpr):
            return [n for x in o.ops for n in grefs(x)]
        if isinstance(o, Agg):
            return [n for x in o.elems for n in grefs(x)]
        return []
    out = set()
    for g in m.globals.values():
        if g.init is not None:
            out |= set(grefs(g.init))
    for f in m.fns.values():
        uses = {}
        for i in f.insts():
            for o in ([v for v, _ in i.incoming] if i.op == "phi" else i.ops):
                if isinstance(o, Inst):
                    uses.setdefault(o, []).append(i)
        root = {}
        work = []
        for i in f.insts():
            for k, o in enumerate([v for v, _ in i.incoming] if i.op == "phi" else i.ops):
                for n in grefs(o):
                    work.append((i, n, o))
        seen = set()
        while work:
            i, n, o = work.pop()
            if (i, n, id(o)) in seen or n in out:
                continue
            seen.add((i, n, id(o)))
            if i.op in ("getelementptr", "phi", "select", "bitcast"):
                work += [(u, n, i) for u in uses.get(i, ())]
            elif i.op not in ("load", "icmp"):
                out.add(n)
    for g in m.globals.values():
        if not g.const and g.name not in out and isinstance(g.init, (Agg, Str)):
            g.const = True
