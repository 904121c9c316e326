"""C42: which layer decides. The function that looks a key's binding up is found by its role (it reads layer_state.activation_time and
layer.keymap) and interpreted over LLVM IR on every small stack of layers: up to four ordinary layers or layouts, active or not, binding the key or
not, activated in every order and at times on both sides of 2^31 and 2^32; composite layers of two to eight layers, with all or only some of
them active, in both orders of definition; every chord code. The binding and the layer it yields must be those of the most recently activated
active layer which binds the key, unless a composite layer with all its constituents active binds it (the largest one), and the key itself where none
does. The choice among layers which define the same chord is interpreted in the same way. The stamps compared are shown to be in order of activation: each
activation stores a new value of a counter that only grows, the counter starts above every constant stamp, and main's stamp is below a layout's."""
import itertools
from seq import *
from c20 import follow

ASSUMPTIONS = ["no two layers carry the same stamp (the counter of activations grows with each of them); composite layers of the same size are left open by the manual"]
KEY = 30
STAMPS = (0, 1, 5000, 2 ** 31 + 10, 2 ** 32 + 7)
ACT, STAMP = ("layer_state", "active"), ("layer_state", "activation_time")


def last(addr):
    return addr[2][-1][1:] if isinstance(addr, tuple) and addr[0] == "a" and addr[2] and addr[2][-1][0] == "f" else None


def idx(addr, field):
    """The index that follows member `field` in the path."""
    p = addr[2]
    for k, e in enumerate(p):
        if e[0] == "f" and e[2] == field:
            return canon(p[k + 1][1]) if k + 1 < len(p) and p[k + 1][0] == "x" else 0
    return None


def deep(addr):
    """The member names of a path, innermost last."""
    return [e[2] for e in addr[2] if e[0] == "f"]


class Layer:
    def __init__(self, active=0, stamp=0, binds=1, parts=None, kind="LT_NORMAL"):
        self.active, self.stamp, self.binds, self.parts, self.kind = active, stamp, binds, parts, kind

    def __repr__(self):
        return (f"composite of {list(self.parts)}" if self.parts else "layer") + (f" active since {self.stamp}" if self.active else " inactive") + ("" if self.binds else ", no binding")


class Look(Seq):
    def setup(self, layers, code, ctx):
        self.L, self.code, self.ctx = layers, code, ctx
        self.got, self.unknown = [], set()
        self.ops_ = [Sym(f"op{i}", 32, (1, 20, frozenset())) for i in range(len(layers))]
        self.chop = [Sym(f"chordop{i}", 32, (1, 20, frozenset())) for i in range(8)]
        self.chlayer = [Sym(f"chordlayer{i}", 32, (0, 31, frozenset())) for i in range(8)]
        self.arg = {}
        return self

    def fresh_load(self, s, addr, ins):
        if not (isinstance(addr, tuple) and addr[0] == "a"):
            return None
        d = deep(addr)
        if "active_chords" in d:
            i = idx(addr, "active_chords")
            if d[-1] == "op" and isinstance(i, int) and i < len(self.chop):
                return ("v", self.chop[i])
            if d[-1] == "layer" and isinstance(i, int) and i < len(self.chlayer):
                return ("v", self.chlayer[i])
            return None
        if d[-1:] == ["nr_layers"]:
            return len(self.L)
        if "layer_state" in d:
            i = idx(addr, "layer_state")
            if isinstance(i, int):
                if not 0 <= i < len(self.L):
                    self.report(s, ins, "beyond", "the state of a layer that does not exist is consulted")
                    return 0
                return {"active": self.L[i].active, "activation_time": self.L[i].stamp}.get(d[-1], None)
            return None
        if "layers" in d:
            i = idx(addr, "layers")
            if not isinstance(i, int) or not 0 <= i < len(self.L):
                return None
            l = self.L[i]
            if d[-1] == "type":
                return self.ctx.kinds["LT_COMPOSITE" if l.parts else l.kind]
            if d[-1] == "mods":
                return 0 if l.parts else (1 << i) & 31
            if d[-1] == "nr_constituents":
                return len(l.parts or ())
            if "constituents" in d:
                j = idx(addr, "constituents")
                return l.parts[j] if l.parts and isinstance(j, int) and 0 <= j < len(l.parts) else None
            if "keymap" in d:
                k = idx(addr, "keymap")
                if k != self.code:
                    if isinstance(k, int):
                        self.report(s, ins, "other-key", "the binding of another key than the one struck is consulted")
                    return None
                if d[-1] == "op":
                    return ("v", self.ops_[i]) if l.binds else 0
            if d[-1] == "nr_chords":
                return self.nchords(i)
            return self.chordfield(i, addr, d)
        return None

    roots = ()

    def _mayalias(self, a, b):
        # the keyboard, the binding and the layer looked up are different objects
        ra, rb = (x[1] if isinstance(x, tuple) and x[0] == "a" else x for x in (a, b))
        if ra in self.roots and rb in self.roots and ra != rb:
            return False
        return Seq._mayalias(self, a, b)

    def extra_key(self, s, block):
        return tuple(repr(s.mem.get(k)) for k in self.cells)

    cells = ()

    def nchords(self, i):
        return 0

    def chordfield(self, i, addr, d):
        return None

    def memcpy(self, s, dst, src, ins, n):
        Seq.memcpy(self, s, dst, src, ins, n)
        if isinstance(src, tuple) and src[0] == "a":
            k = {("a", dst[1], dst[2]) if dst[0] == "a" else ("a", dst, ())}
            for b in k:
                a = ("a", src[1], src[2] + (("f", "descriptor", "op"),))
                v = s.mem.get((a, 4))
                if v is None:
                    v = self.fresh_load(s, a, ins)
                if v is not None:
                    s.mem[(("a", b[1], b[2] + (("f", "descriptor", "op"),)), 4)] = v

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def lookup_fn(m, ms):
    out = []
    for f in m.fns.values():
        if f.file != KFILE:
            continue
        a = b = False
        for i in f.insts():
            if i.op in ("load", "getelementptr"):
                p = ms._addr(i.ops[0] if i.op == "load" else i)[1]
                a |= ("layer_state", "activation_time") in [tuple(x) for x in p] or p[-1:] == [STAMP] or any(x[1] == "activation_time" for x in p)
                b |= any(x == ("layer", "keymap") for x in p)
        if a and b:
            out.append(f)
    return out


def stampfield(x):
    return x[1] == "activation_time"


def spec(layers):
    """(index, True) of the layer that decides, None for the key itself, or 'open'."""
    comp = [i for i, l in enumerate(layers) if l.parts and l.binds and all(layers[p].active for p in l.parts)]
    if comp:
        n = max(len(layers[i].parts) for i in comp)
        comp = [i for i in comp if len(layers[i].parts) == n]
        return comp[0] if len(comp) == 1 else "open"
    act = [i for i, l in enumerate(layers) if l.active and l.binds]
    if not act:
        return None
    t = max(layers[i].stamp for i in act)
    act = [i for i in act if layers[i].stamp == t]
    return act[0] if len(act) == 1 else "open"


def stacks():
    plain = []
    for n in (1, 2, 3):
        for act in itertools.product((0, 1, 2), repeat=n):
            if act.count(2) > 1:
                continue
            for binds in itertools.product((0, 1), repeat=n):
                ps = list(itertools.permutations(STAMPS, n))
                for k in range(0, len(ps), 1 if n < 3 else 7):
                    plain.append([Layer(act[i], ps[k][i], binds[i], None, "LT_LAYOUT" if i % 2 else "LT_NORMAL") for i in range(n)])
    for s in itertools.permutations(STAMPS, 4):
        plain.append([Layer(1, s[i]) for i in range(4)])
    comp = []
    for act in itertools.product((0, 1), repeat=3):
        for order in (0, 1):
            for b2, b3, bl in itertools.product((0, 1), repeat=3):
                base = [Layer(1, 0, bl)] + [Layer(act[i], 2 ** 32 + 7 * (3 - i), bl) for i in range(3)]
                two, three = Layer(0, 0, b2, (1, 2)), Layer(0, 0, b3, (3, 1, 2))
                comp.append(base + ([two, three] if order == 0 else [three, two]))
    for off in (None, 0, 3, 7):
        base = [Layer(1, 0, 1)] + [Layer(0 if i == off else 1, 10 + i, i % 2) for i in range(8)]
        comp.append(base + [Layer(0, 0, 1, tuple(range(1, 9)))])
        comp.append(base + [Layer(0, 0, 1, (2, 3)), Layer(0, 0, 1, tuple(range(1, 9)))])
    # a composite layer of layouts or one that is active itself
    comp.append([Layer(1, 0), Layer(1, 9), Layer(1, 3), Layer(2, 5, 1, (1, 2))])
    return plain + comp


def simulate(ctx, f, g, ms, layers, code):
    m = ctx.mod
    e = Look(m, g, ms).setup(layers, code, ctx)
    ints = [a for a in g.args if a.ty.k == "int"]
    ptrs = [a for a in g.args if a.ty.k == "ptr"]
    e.codearg = ints[0]
    K = Sym("kbd", 64, (1, 1 << 62, frozenset()))
    D = Sym("d", 64, (1, 1 << 62, frozenset()))
    DL = Sym("dl", 64, (1, 1 << 62, frozenset()))

    def seed(s):
        s.env[ints[0]] = code
        for a, v in zip(ctx.roles, (K, D, DL)):
            s.env[g.args[a]] = ("v", v)
    e.seed = seed
    e.roots = tuple(("v", x) for x in (K, D, DL))
    e.cells = ((("a", ("v", D), (("f", "descriptor", "op"),)), 4), (("v", DL), 4))
    follow(e, g, m)
    e.run()
    e.flush(ctx)
    out = []
    for s, t in e.got:
        op = peek(e, s, ("a", ("v", D), (("f", "descriptor", "op"),)), 4)
        dl = s.mem.get((("v", DL), 4), s.mem.get((("a", ("v", DL), ()), 4)))
        arg = next((v for (k, w), v in s.mem.items() if isinstance(k, tuple) and k[0] == "a" and k[1] == ("v", D) and ("f", "descriptor", "args") in k[2] and k[2][-1][1:] == ("descriptor_arg", "code")), None)
        if arg is None:
            arg = next((v for (k, w), v in s.mem.items() if isinstance(k, tuple) and k[0] == "a" and k[1] == ("v", D) and ("f", "descriptor", "args") in k[2] and not any(x[0] == "x" and x[1] for x in k[2])), None)
        out.append((s, t, op, e.const(s, dl) if dl is not None and not isinstance(dl, int) else dl, arg, dl))
    return e, out


def lookup(ctx):
    m = ctx.mod
    ms = ModSets(m)
    ctx.kinds = {k: m.enum(k) for k in ("LT_NORMAL", "LT_LAYOUT", "LT_COMPOSITE")}
    fs = lookup_fn(m, ms)
    # the innermost one: not a caller of another
    fs = [f for f in fs if not any(i.op == "call" and isinstance(i.callee, GRef) and m.fns.get(i.callee.name) in fs for i in f.insts())]
    if len(fs) != 1 or len(fs[0].args) < 3:
        ctx.undecide("binding lookup", "no single function looks up bindings by activation")
        return
    f = fs[0]
    g = inline(m, f, lambda c, ch: c.file == KFILE)
    ptrs = [i for i, a in enumerate(f.args) if a.ty.k == "ptr"]
    ints = [i for i, a in enumerate(f.args) if a.ty.k == "int"]
    if len(ptrs) != 3 or len(ints) != 1:
        ctx.undecide("binding lookup", "the lookup function takes other arguments")
        return
    # which pointer is which: the keyboard is the one dereferenced through its members, the binding the one an op is stored through
    def through(k, i):
        r = ms._addr(i.ops[1])
        return r[0] == ("arg", k) or r[0] is f.args[k] or r[0] == f.args[k]
    names = [f.args[i].name for i in ptrs]
    dd = [i for i in ptrs if f.args[i].name == "d"] or [ptrs[1]]
    ll = [i for i in ptrs if f.args[i].name == "dl"] or [ptrs[2]]
    kk = [i for i in ptrs if i not in (dd[0], ll[0])]
    ctx.roles = (kk[0], dd[0], ll[0])
    ctx.count("lookup_functions")
    SEQ = m.enum("OP_KEYSEQUENCE")

    def judge(layers, code, want):
        e, out = simulate(ctx, f, g, ms, layers, code)
        ctx.count("lookups")
        if not out:
            ctx.undecide("binding lookup", "no path returns")
        for s, t, op, dl, arg, rawdl in out:
            w = f" ({'; '.join(f'{i}: {l}' for i, l in enumerate(layers))})"
            path = dict(where=m.loc(t), path=trace_str(s.trace))
            if want == "open":
                continue
            got = next((i for i, o in enumerate(e.ops_) if op == ("v", o)), None)
            if want is None:
                if got is not None or (isinstance(op, int) and op != SEQ):
                    ctx.violation("unbound", "a key which no active layer binds is given the binding of a layer" + w, **path)
                elif op != SEQ:
                    ctx.undecide("unbound key", "the action is not a constant")
                elif isinstance(arg, int) and arg & 0xff != code:
                    ctx.violation("unbound", "a key which no active layer binds does not act as itself" + w, **path)
                continue
            if got is None:
                if op is None or not isinstance(op, int):
                    ctx.undecide("binding lookup", "where the binding comes from is not known")
                else:
                    ctx.violation("ignored", f"the binding of layer {want}, which decides, is not used" + w, **path)
            elif got != want:
                why = "a composite layer with all constituents active" if layers[want].parts else "the most recently activated layer which binds the key"
                ctx.violation("wrong-layer", f"the binding is taken from layer {got} instead of {want}, {why}" + w, **path)
            if rawdl is None and got is not None:
                ctx.violation("wrong-origin", f"the layer which a binding comes from ({got}) is not handed on" + w, **path)
            if isinstance(dl, int) and got is not None and dl != got:
                ctx.violation("wrong-origin", f"a binding taken from layer {got} is said to come from layer {dl}" + w, **path)

    for layers in stacks():
        judge(layers, KEY, spec(layers))
        if ctx.violations:
            return
    lo, hi = m.macro("KEYD_CHORD_1"), m.macro("KEYD_CHORD_MAX")
    one = [Layer(1, 0, 1), Layer(1, 5, 0)]
    for code in (1, lo - 1, hi + 1, 255):
        if lo <= code <= hi or code > 255:
            continue
        judge(one, code, 0)
    n = [Layer(1, 0, 0)]
    for code in (1, lo - 1, 255):
        if not lo <= code <= hi:
            judge(n, code, None)
    for code in range(lo, hi + 1):
        e, out = simulate(ctx, f, g, ms, one, code)
        ctx.count("chord_lookups")
        for s, t, op, dl, arg, raw in out:
            k = code - lo
            path = dict(where=m.loc(t), path=trace_str(s.trace))
            if op in [("v", o) for o in e.ops_] or isinstance(op, int) or (op in [("v", o) for o in e.chop] and op != ("v", e.chop[k])):
                ctx.violation("chord", f"active chord number {k + 1} does not act as what it was bound to", **path)
            elif raw in [("v", o) for o in e.chlayer] and raw != ("v", e.chlayer[k]):
                ctx.violation("chord", f"active chord number {k + 1} is said to come from the layer of another chord", **path)


# ---- the stamps ----

class Stamps(Seq):
    """Increments of a layer's activation count and stamps stored, per layer index."""

    def setup(self):
        self.kinds_ = {}
        return self

    def on_inst(self, s, ins):
        if ins.op == "store":
            a = self.val(s, ins.ops[1])
            if isinstance(a, tuple) and a[0] == "a" and "layer_state" in deep(a):
                i = idx(a, "layer_state")
                f = deep(a)[-1]
                if f == "activation_time":
                    self.put(s, ("stamp", repr(i)))
                elif f == "active" and grows(ins):
                    self.put(s, ("up", repr(i), ins))
        return Seq.on_inst(self, s, ins)

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        st = {x[1] for x in self.get(s, "stamp")}
        for x in self.get(s, "up"):
            if x[1] not in st:
                self.report(s, x[2], "unstamped", "a layer becomes active without being stamped as the most recently activated one")


def grows(ins):
    """A store of the old value of the same member plus something."""
    v = strip(ins.ops[0])
    if isinstance(v, Inst) and v.op == "add":
        return any(isinstance(strip(o), Inst) and strip(o).op == "load" for o in v.ops) and any(isinstance(o, Const) and 0 < o.v < 128 for o in v.ops)
    return False


def counter(m, fn, v):
    """(first value, global) if v is the value of a counter that grows with each call, else None."""
    v = strip(v)
    add = 0
    if isinstance(v, Inst) and v.op == "call" and isinstance(v.callee, GRef) and v.callee.name in m.fns:
        g = m.fns[v.callee.name]
        rets = [b.insts[-1] for b in g.blocks if b.insts[-1].op == "ret"]
        return counter(m, g, rets[0].ops[0]) if len(rets) == 1 and rets[0].ops else None
    if isinstance(v, Inst) and v.op == "add" and isinstance(v.ops[1], Const):
        add, v = v.ops[1].v, strip(v.ops[0])
    if not (isinstance(v, Inst) and v.op == "load" and isinstance(v.ops[0], GRef)):
        return None
    gn = v.ops[0].name
    sts = [i for f in m.fns.values() for i in f.insts() if i.op == "store" and isinstance(i.ops[1], GRef) and i.ops[1].name == gn]
    if not sts:
        return ("bad", v)
    for i in sts:
        x = strip(i.ops[0])
        if isinstance(x, Inst) and x.op == "add" and isinstance(x.ops[1], Const) and isinstance(strip(x.ops[0]), Inst) and strip(x.ops[0]).op == "load" and \
                isinstance(strip(x.ops[0]).ops[0], GRef) and strip(x.ops[0]).ops[0].name == gn and 0 < x.ops[1].v < 1 << 31:
            continue
        return ("bad", i)
    init = m.globals[gn].init
    if isinstance(init, Const):
        init = init.v
    if init is None or not isinstance(init, int):
        try:
            init = int(getattr(init, "v", 0) or 0)
        except Exception:
            return None
    # the value handed out the first time: before or after the counter moves
    if not add and any(i.block is v.block and i.block.insts.index(i) < v.block.insts.index(v) for i in sts):
        add = strip(sts[0].ops[0]).ops[1].v
    return (init + add, gn)


def stamps(ctx):
    m = ctx.mod
    ms = ModSets(m)
    first, consts, other = [], [], []
    for f in m.fns.values():
        for i in f.insts():
            if i.op != "store":
                continue
            p = ms._addr(i.ops[1])[1]
            if not p or p[-1][1] != "activation_time":
                continue
            ctx.count("stamp_stores")
            v = strip(i.ops[0])
            if isinstance(v, Const):
                consts.append((v.v, i, f, index_of(i.ops[1])))
                continue
            c = counter(m, f, v)
            if c is None:
                other.append(i)
            elif c[0] == "bad":
                ctx.violation("counter", "the counter that orders activations does not grow with each of them", where=m.loc(c[1]))
            else:
                first.append((c[0], i))
    ctx.need(first or other or consts, "no stamp of an activation is stored")
    for i in other:
        ctx.undecide(m.loc(i), "where the stamp of an activation comes from is not a counter")
    main = [c for c in consts if c[3] == 0]
    rest = [c for c in consts if c[3] != 0]
    mv = max([c[0] for c in main] or [0])
    for v, i, f, _ in rest:
        if v <= mv:
            ctx.violation("layout-stamp", f"a layout is stamped {v}, no later than main ({mv}): which of the two decides is left to their order in the configuration", where=m.loc(i))
    top = max([c[0] for c in consts] or [0])
    for v, i in first:
        if v <= top and not other:
            ctx.violation("first-stamp", f"the first activation is stamped {v}, no later than a layout ({top}): the layer activated first may be hidden by the layout", where=m.loc(i))
    # every activation is stamped
    def ups(f):
        return [i for i in f.insts() if i.op == "store" and ms._addr(i.ops[1])[1][-1:] and ms._addr(i.ops[1])[1][-1][1] == "active" and
                any("layer_state" in x for x in ms._addr(i.ops[1])[1]) and grows(i)]

    def has(f):
        return any(i.op == "store" and ms._addr(i.ops[1])[1] and ms._addr(i.ops[1])[1][-1][1] == "activation_time" for i in f.insts())
    work = [f for f in m.fns.values() if f.file == KFILE and ups(f)]
    ctx.need(work or other, "no function activates a layer")
    seen = set()
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        g = inline(m, f, lambda c, ch: c.file == KFILE and (bool(ups(c)) or has(c)))
        callers = [h for h in m.fns.values() if h.file == KFILE and any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == f.name for i in h.insts())]
        if not has(g) and callers:
            work += callers
            continue
        ctx.count("activating_functions")
        e = Stamps(m, g, ms).setup()
        e.run()
        e.flush(ctx)


def index_of(o):
    o = strip(o)
    while isinstance(o, Inst) and o.op == "getelementptr":
        for k in o.ops[1:]:
            pass
        c = [x for x in o.ops[1:]]
        # ...[0, <layer_state>, index, member]
        if len(c) >= 1 and isinstance(o.ops[0], (Inst, Arg)):
            vs = [x.v if isinstance(x, Const) else None for x in c]
            if None in vs:
                return None
            base = strip(o.ops[0])
            if isinstance(base, Inst) and base.op == "getelementptr":
                r = index_of(base)
                if r is None:
                    return None
                if len(vs) >= 2 and vs[-1] and base.ety.k == "array":
                    return vs[-1]
                o = base
                if o.ety.k == "array":
                    return c_last(o)
                continue
        return 0
    return 0


def c_last(o):
    x = o.ops[-1]
    return x.v if isinstance(x, Const) else None


# ---- chords ----

class Chord(Look):
    def with_outcomes(self, res):
        self.res = res
        return self

    def nchords(self, i):
        return len(self.res[i])

    def which(self, a):
        if isinstance(a, tuple) and a[0] == "a" and "chords" in deep(a) and "layers" in deep(a) and deep(a)[-1] == "chords":
            return idx(a, "layers"), idx(a, "chords")

    def on_inst(self, s, ins):
        if ins.op == "call" and isinstance(ins.callee, GRef) and ins.callee.name in self.mod.fns:
            for o in ins.ops:
                w = self.which(self.val(s, o))
                if w:
                    if isinstance(w[0], int) and isinstance(w[1], int) and w[0] < len(self.res) and w[1] < len(self.res[w[0]]):
                        self.put(s, ("force", ins, self.res[w[0]][w[1]]))
                    else:
                        self.unknown.add("a chord that is not known")
        return Seq.on_inst(self, s, ins)

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)


def chords(ctx):
    m = ctx.mod
    ms = ModSets(m)
    ctx.kinds = {k: m.enum(k) for k in ("LT_NORMAL", "LT_LAYOUT", "LT_COMPOSITE")}
    cand = []
    for f in m.fns.values():
        if f.file == KFILE:
            ps = [x for i in f.insts() if i.op == "load" for x in ms._addr(i.ops[0])[1]]
            if any(x[1] == "activation_time" for x in ps) and ("layer", "nr_chords") in ps:
                cand.append(f)
    if len(cand) != 1 or len(cand[0].args) != 3 or [a.ty.k for a in cand[0].args] != ["ptr"] * 3:
        ctx.undecide("choice among chords", "no single function looks chords up by activation")
        return
    f = cand[0]
    callee = [i for i in f.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns]
    keep = {i.callee.name for i in callee if i.ty.k == "int" and len(i.ops) >= 2}
    g = inline(m, f, lambda c, ch: c.file == KFILE and c.name not in keep)
    n = [a.name for a in f.args]
    ci = n.index("chord") if "chord" in n else 1
    li = n.index("chord_layer") if "chord_layer" in n else 2
    ki = ({0, 1, 2} - {ci, li}).pop()
    cases = []
    for res in itertools.product((0, 1, 2), repeat=3):
        for act in itertools.product((0, 1), repeat=3):
            for st in ((0, 5, 9), (0, 9, 5), (0, 2 ** 32 + 7, 2 ** 31 + 1), (7, 0, 3)):
                cases.append(([Layer(act[i], st[i]) for i in range(3)], [(r,) for r in res]))
    for r in ((2, 1), (1, 2), (0, 2), (0, 1), (1, 0), (0, 0)):
        cases.append(([Layer(1, 0), Layer(1, 4), Layer(1, 2)], [(2,), r, (0, 0)]))
        cases.append(([Layer(1, 0), Layer(1, 4)], [(), r]))
    for layers, res in cases:
        e = Chord(m, g, ms).setup(layers, KEY, ctx).with_outcomes(res)
        K, A, B = (Sym(x, 64, (1, 1 << 62, frozenset())) for x in ("kbd", "chord", "layer"))

        def seed(s):
            for k, v in ((ki, K), (ci, A), (li, B)):
                s.env[g.args[k]] = ("v", v)
        e.seed = seed
        e.roots = tuple(("v", x) for x in (K, A, B))
        follow(e, g, m)
        e.run()
        e.flush(ctx)
        ctx.count("chord_choices")
        on = [(l.stamp, i) for i, l in enumerate(layers) if l.active]
        full = [(t, i) for t, i in on if 2 in res[i]]
        part = any(1 in res[i] for t, i in on)
        want = max(full)[1] if full else None
        code = (3 if part else 2) if full else (1 if part else 0)
        for s, t in e.got:
            w = f" (layers {[(str(l), r) for l, r in zip(layers, res)]}; 1: part of the chord is struck, 2: all of it)"
            path = dict(where=m.loc(t), path=trace_str(s.trace))
            r = e.const(s, e.val(s, t.ops[0]))
            if r is None or e.unknown:
                ctx.undecide("choice among chords", "the outcome is not known")
                continue
            if r != code:
                ctx.violation("chord-outcome", f"chords are judged as {r} instead of {code}" + w, **path)
            if want is not None:
                dl = s.mem.get((("v", B), 4), s.mem.get((("a", ("v", B), ()), 4)))
                c = s.mem.get((("v", A), 8), s.mem.get((("a", ("v", A), ()), 8)))
                dl = e.const(s, dl) if dl is not None else None
                if dl is None:
                    ctx.undecide("choice among chords", "the layer chosen is not known")
                elif dl != want:
                    ctx.violation("chord-layer", f"a chord defined in several active layers is taken from layer {dl} instead of {want}, the most recently activated" + w, **path)
                x = e.which(c)
                if x and (x[0] != want or 2 not in res[x[0]][x[1]:x[1] + 1]):
                    ctx.violation("chord-layer", f"the chord acted on is number {x[1]} of layer {x[0]}, which is not the one that was struck" + w, **path)


def run(ctx):
    ctx.rule("the most recently activated active layer which binds the key decides, a complete composite layer before it, the key itself after all", lookup)
    ctx.rule("stamps are in order of activation; main gives way to layouts, layouts to layers", stamps)
    ctx.rule("among layers that define the same chord the most recently activated one decides", chords)
