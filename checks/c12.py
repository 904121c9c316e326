"""C12: modifiers follow the layers. Every action is simulated path by path, first pressed, then released from every state in which the
press can have left the modifiers (in line; layers changed since; modifiers of a key or macro held; the key's own layer left out): when
the key has been released the modifiers have been computed from the active layers after the last change, and none of a macro's or key's
own modifiers is left. Only a macro and a one-shot key may leave out the modifiers of the layer in which they are bound. A macro which
stays active defers this to the next event, which brings the modifiers in line before anything else; an expiring one-shot does so at
once. The computation itself covers every layer and sets every modifier key as computed."""
from seq import *
import c08
import c10

ACTIVE = ("keyboard.layer_state", "active")
ASSUMPTIONS = ["layouts carry no modifiers (the parser gives them none), so a change of layout alone does not affect them"]


def fieldsof(m, ms, f, op):
    return [ms._addr(i.ops[1] if i.op == "store" else i.ops[0])[1] for i in f.insts() if i.op == op]


def resync_fn(m):
    """The function that computes the modifiers from the active layers and makes the keys agree."""
    ms = ModSets(m)
    d = descriptor_fn(m)
    out = []
    for f in m.fns.values():
        if f.file != KFILE or f is d or not CFG(f).loops or sum(a.ty.k == "int" for a in f.args) < 2:
            continue
        lf = [p[-1] for p in fieldsof(m, ms, f, "load") if p]
        if ACTIVE in lf and ("layer", "mods") in lf and sender(m, f):
            out.append(f)
    return out[0] if len(out) == 1 else None


def sender(m, f, seen=None):
    """f may send a key."""
    seen = seen if seen is not None else set()
    if f in seen:
        return False
    seen.add(f)
    k = key_fn(m)
    d = descriptor_fn(m)
    for i in f.insts():
        if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
            g = m.fns[i.callee.name]
            if g is k or g.file == KFILE and g is not d and sender(m, g, seen):
                return True
    return False


def roles(m, f):
    """(excluded layer, extra modifiers) parameters of the resync function."""
    ints = [k for k, a in enumerate(f.args) if a.ty.k == "int"]
    small = [k for k in ints if f.args[k].ty.a == 8]
    ex = [k for k in ints if k not in small]
    return (ex[0] if ex else ints[0]), (small[0] if small else ints[-1])


class Mods(Seq):
    """tags ('lv', level) level: ok, stale (layers changed since), own (the key's layer left out), ownok (by a macro), held (extra
    modifiers); ('armed',) a macro stays active; ('cond', ...) what is known about the macro; ('ld', value, name)"""
    start = frozenset({("lv", "ok")})

    def initial(self):
        return self.start

    def lv(self, s):
        return self.get(s, "lv")[0][1]

    def level(self, s, x):
        self.drop(s, lambda t: t[0] == "lv")
        self.put(s, ("lv", x))

    def on_store(self, s, ins, addr, v):
        lf = lastfield(addr)
        if lf == ACTIVE:
            self.events += 1
            if isinstance(self.const(s, v), int) and not isinstance(self.val(s, ins.ops[0]), tuple):
                return          # a layout is set or replaced
            self.level(s, "stale")
        elif lf == ("keyboard", "active_macro"):
            self.drop(s, lambda t: t[0] == "armed")
            if self.const(s, v) != 0:
                self.put(s, ("armed",))

    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            n = tuple((e[1], e[2]) if e[0] == "f" else e for e in a[2]) if isinstance(a, tuple) and a[0] == "a" else ()
            if any(e[0] in ("macro", "macro_entry") for e in n if isinstance(e[0], str)):
                k = next(i for i, e in enumerate(n) if e[0] in ("macro", "macro_entry"))
                self.drop(s, lambda t: t[0] == "ld" and t[2] == n[k:])
                self.put(s, ("ld", s.env[ins], n[k:]))

    def on_branch(self, s, t, c, want):
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        if not (isinstance(c, tuple) and c[0] == "cmp"):
            return
        p, a, b = c[1], canon(c[2]), canon(c[3])
        for x in self.get(s, "ld"):
            for u, v in ((a, b), (b, a)):
                if u == canon(x[1]) and isinstance(v, int) and p in ("eq", "ne"):
                    yes = want == (p == "eq")
                    for y in self.get(s, "cond"):
                        if y[1] == x[2] and (y[2] == v and y[3] != yes or y[2] != v and y[3] and yes):
                            return False
                    self.put(s, ("cond", x[2], v, yes))

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is self.upd:
            self.events += 1
            ex, mo = self.const(s, args[self.rex]), self.const(s, args[self.rmo])
            e = canon(args[self.rex])
            if mo != 0:
                self.level(s, "held")
            elif ex is not None and (ex & 0xffffffff) == 0xffffffff:
                self.level(s, "ok")
            elif e in self.own:
                self.level(s, "ownok" if ("played",) in s.auto else "own")
            else:
                self.level(s, "other")
        elif f is not None and (f is self.keyf or f.src == "macro_execute"):
            if f is not self.keyf or self.const(s, args[-1]) != 0:
                self.put(s, ("played",))
                if self.lv(s) == "own":
                    self.level(s, "ownok")
        elif f is not None and f is self.desc:
            self.drop(s, lambda t: t[0] == "armed")

    def _enter(self, s, b, heap):
        if b in self.reset and self.lv(s) != "ok":
            self.level(s, "ok")         # everything is released: this includes the modifiers
        Seq._enter(self, s, b, heap)

    def extra_key(self, s, b):
        return ()


class Act(Mods, DescEngine):
    def __init__(self, m, fn, op, pressed):
        Seq.__init__(self, m, fn)
        self.op, self.pressed = op, pressed

    def seed(self, s):
        DescEngine.seed(self, s)
        ints = [a for a in self.fn.args if a.ty.k == "int"]
        self.own = {("v", a) for a in ints if a.name == "dl"} or {("v", ints[1])}

    def _mayalias(self, a, b):
        return DescEngine._mayalias(self, a, b)


def setup(e, m, g):
    e.upd, e.keyf, e.desc = resync_fn(m), key_fn(m), descriptor_fn(m)
    e.rex, e.rmo = roles(m, e.upd)
    cfg = CFG(g)
    e.reset = set(c08.resetloops(m, g, cfg))
    e.own = set()


def stops(m):
    return {resync_fn(m), key_fn(m), descriptor_fn(m), event_fn(m)}


def want(m):
    ms = ModSets(m)
    stop = stops(m)
    keep = {}

    def rel(c):
        """c (or a function it calls) changes layers, resynchronises, releases, or plays."""
        if c not in keep:
            keep[c] = False
            r = len(c.blocks) <= 12 and not any(i.op in ("store", "call") for i in c.insts()) and not CFG(c).loops
            for i in c.insts():
                if i.op == "store":
                    p = ms._addr(i.ops[1])[1]
                    if p and p[-1] in (ACTIVE, ("keyboard", "active_macro"), ("keyboard", "keystate")):
                        r = True
                elif i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
                    f = m.fns[i.callee.name]
                    if f in stop or f.src == "macro_execute" or f.file == KFILE and rel(f):
                        r = True
            keep[c] = r
        return keep[c]
    return lambda c, ch: c.file == KFILE and c not in stop and rel(c)


SHOT = ("OP_ONESHOT", "OP_ONESHOTM")


def action(ctx, item):
    m = ctx.mod
    name, val = item
    g = inline(m, descriptor_fn(m), want(m))
    e = Act(m, g, val, 1)
    setup(e, m, g)
    e.run()
    ctx.need(e.exits, "an action never ends")
    starts = {frozenset({("lv", "ok")})}
    for s, t in e.exits:
        if t.op != "ret":
            continue
        if ("armed",) in s.auto:
            ctx.count("deferred")
            continue
        starts.add(frozenset(x for x in s.auto if x[0] in ("lv", "cond")))
    e.flush(ctx, "action:")
    for st in sorted(starts, key=repr):
        r = Act(m, g, val, 0)
        setup(r, m, g)
        r.start = st
        r.run()
        for s, t in r.exits:
            if t.op != "ret":
                continue
            lv = r.lv(s)
            if lv == "stale":
                r.report(s, t, "stale", "layers have changed, but the modifiers still follow the old ones when the key has been released")
            elif lv == "held":
                r.report(s, t, "held", "the modifiers of a key or macro stay down when the key has been released")
            elif lv == "own" and name not in SHOT or lv == "other":
                r.report(s, t, "missing", "the modifiers of an active layer are left out when the key has been released")
        r.flush(ctx, f"action:{name}:")
    ctx.count("actions")


class Step(Mods):
    """The engine step: expiry and active macros."""

    def seed(self, s):
        a = self.fn.args
        kbd = ("v", next(x for x in a if x.ty.k == "ptr"))
        ints = [x for x in a if x.ty.k == "int"]
        self.code = ("v", ints[0])
        s.facts[self.code] = (1, 255, frozenset())
        if self.nocode:
            s.env[ints[0]] = 0
            self.code = 0
        self.am = ("a", kbd, (("f", "keyboard", "active_macro"),))
        if self.macro:
            s.mem[self.am, 8] = ("v", self.sym)
            s.facts[("v", self.sym)] = (1, INF, frozenset())
            self.put(s, ("was",))

    def step(self, s, ins):
        n = self.callname(ins)
        f = self.mod.fns.get(n) if n else None
        keep = s.mem.get((self.am, 8)) if f is not None and f in self.holders else None
        Mods.step(self, s, ins)
        if keep is not None:
            s.mem[self.am, 8] = keep        # the step goes on only where nothing was done (C11)

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is self.desc:
            ints = [canon(a) for a, o in zip(args, ins.ops) if o.ty.k == "int"]
            lv = self.lv(s)
            if self.macro and not self.nocode and ("was",) in s.auto and ints[0] == self.code:
                self.report(s, ins, "macro", "a key is processed while a macro's modifiers may still be down")
            if lv == "stale":
                self.report(s, ins, "expiry", "a key is processed although layers which have expired still have their modifiers")
            self.drop(s, lambda t: t[0] == "was")       # the next event sees to it
        Mods.on_other(self, s, ins, args, n)
        if f is self.upd and self.lv(s) == "ok":
            self.drop(s, lambda t: t[0] == "was")
        if f is self.desc or f is self.stepf or f is not None and f.src == "kbd_process_events":
            self.drop(s, lambda t: t[0] in ("was", "armed"))

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op != "ret":
            return
        if self.lv(s) == "stale":
            self.report(s, t, "expiry", "expired layers keep their modifiers")
        am = s.mem.get((self.am, 8))
        if self.macro and ("was",) in s.auto and am is not None and self.const(s, am) == 0:
            self.report(s, t, "macro", "a macro ends without its modifiers being brought in line")


def engine(ctx):
    m = ctx.mod
    w = want(m)
    ev = event_fn(m)
    holders = {f for f in m.fns.values() if f.file == KFILE and chordlike(m, f)}
    g = inline(m, ev, lambda c, ch: w(c, ch) and c not in holders)
    for nocode in (False, True):
        for macro in (False, True):
            e = Step(m, g)
            setup(e, m, g)
            e.holders = holders
            e.stepf, e.nocode, e.macro, e.sym = ev, nocode, macro, Sym("M", 64)
            e.run()
            ctx.need(e.exits, "the engine step never ends")
            e.flush(ctx, "step:")


def chordlike(m, c):
    """Withholding of events: the engine step goes on only if it did nothing."""
    ms = ModSets(m)
    return any(i.op == "store" and ("keyboard", "pending_key") in ms._addr(i.ops[1])[1] or
               i.op == "store" and ms._addr(i.ops[1])[1][-1:] == [("chord", "state")] for i in c.insts())


# ---------------------------------------------------------------- the computation

class Compute(Seq):
    """One pass of the loop over the layers. tags ('act', value) ('own',)"""

    def seed(self, s):
        a = self.fn.args
        if self.plain:
            s.env[a[self.rex]] = -1
        self.acc0 = ("v", a[self.rmo])
        self.done = False

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is not None and f.file == KFILE and sender(self.mod, f):
            self.events += 1


def orparts(av):
    """The parts of a disjunction."""
    av = canon(av)
    if isinstance(av, tuple) and av[0] == "op" and av[1] == "or":
        return orparts(av[2]) | orparts(av[3])
    return {av}


class Layer(Seq):
    def seed(self, s):
        a = self.fn.args
        if self.plain:
            s.env[a[self.rex]] = -1

    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            lf = lastfield(a)
            if lf == ACTIVE and canon(elem(a, ("keyboard", "layer_state"))) == self.idx(s):
                self.put(s, ("act", s.env[ins]))
            if lf == ("layer", "mods") and canon(elem(a, ("config", "layers"))) == self.idx(s):
                self.put(s, ("mods", canon(s.env[ins])))
            if lf == ("layer", "constituents"):
                self.put(s, ("con", canon(s.env[ins])))

    def idx(self, s):
        return canon(self.val(s, self.phi))

    def on_branch(self, s, t, c, want):
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        for x in self.get(s, "act"):
            k = self.truth(s, x[1])
            if k is not None:
                self.put(s, ("on",) if k else ("off",))
        if isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("eq", "ne") and want == (c[1] == "eq"):
            for u, v in ((c[2], c[3]), (c[3], c[2])):
                w = canon(v)
                if isinstance(u, tuple) and u[0] == "a" and hasfield(u, ("config", "layers")) and not (isinstance(v, int)) or \
                   canon(u) == self.idx(s) and isinstance(w, tuple) or ("con", canon(u)) in s.auto:
                    self.put(s, ("own",))

    def _edge(self, s, b, tgt, t, heap, w):
        if tgt is self.head:
            if b in self.body:
                old = {canon(self.val(s, p)) for p in self.accs}
                got = [orparts(self.val(s, v)) for p in self.accs for v, bb in p.incoming if bb is b]
                mods = {x[1] for x in self.get(s, "mods")}
                for p, g in zip(self.accs, got):
                    o = canon(self.val(s, p))
                    if g == {o}:
                        if ("off",) not in s.auto and ("own",) not in s.auto:
                            self.report(s, t, "layer", "the modifiers of an active layer are not taken into account")
                    elif o in g and g - {o} <= mods:
                        if ("off",) in s.auto:
                            self.report(s, t, "layer", "the modifiers of an inactive layer are taken into account")
                        elif ("on",) not in s.auto:
                            self.report(s, t, "layer", "modifiers are taken into account whether or not the layer is active")
                        elif ("own",) in s.auto:
                            self.report(s, t, "own", "the modifiers of the layer to be left out are not left out")
                    else:
                        self.report(s, t, "mods", "the modifiers are not computed from the layer")
                self.passes += 1
                self.drop(s, lambda x: True)
            else:
                for p in self.accs:
                    for v, bb in p.incoming:
                        if bb is b and self.val(s, v) != ("v", self.fn.args[self.rmo]) and canon(self.val(s, v)) != ("v", self.fn.args[self.rmo]):
                            self.report(s, t, "extra", "the modifiers asked for are forgotten")
        Seq._edge(self, s, b, tgt, t, heap, w)

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is self.setf:
            self.events += 1
            v = canon(args[self.setarg])
            if v not in {canon(self.val(s, p)) for p in self.accs}:
                self.report(s, ins, "applied", "other modifiers are set than the ones computed")
            self.put(s, ("set",))

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op == "ret" and ("set",) not in s.auto:
            self.report(s, t, "applied", "the modifiers computed are not set")


def setter(m):
    """The function which makes the modifier keys agree with a mask."""
    u = resync_fn(m)
    for i in u.insts():
        if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
            f = m.fns[i.callee.name]
            if f.file == KFILE and sender(m, f) and sum(a.ty.k == "int" for a in f.args) == 1:
                return f
    return None


def compute(ctx):
    m = ctx.mod
    u = ctx.need(resync_fn(m), "the computation of the modifiers is not found")
    st = ctx.need(setter(m), "the function which sets the modifiers is not found")
    ms = ModSets(m)

    def pure(c):
        return c.file == KFILE and c is not st and not sender(m, c)
    g = inline(m, u, lambda c, ch: pure(c))
    cfg = CFG(g)
    call = [i for i in g.insts() if i.op == "call" and isinstance(i.callee, GRef) and m.fns.get(i.callee.name) is st]
    ctx.need(call, "the modifiers are not set")
    rex, rmo = roles(m, u)
    n = 0
    for h, body in cfg.loops.items():
        ld = [i for b in body for i in b.insts if i.op == "load" and ms._addr(i.ops[0])[1][-1:] == [ACTIVE]]
        if not ld:
            continue
        if any(h in cfg.loops[k] for k in cfg.loops if k is not h):
            continue
        cs = cfg.counted(h)
        if not cs:
            ctx.undecide("resync", "the loop over the layers is not counted")
            continue
        n += 1
        coverage(ctx, m, cfg, h)
        phi = cs[0][0]
        accs = [p for p in h.insts if p.op == "phi" and p is not phi and p.ty.k == "int" and p.ty.a == 8]
        if not accs:
            accs = [p for p in h.insts if p.op == "phi" and p is not phi and p.ty.k == "int"]
        for plain in (True, False):
            e = Layer(m, g)
            e.phi, e.accs, e.head, e.body, e.plain, e.passes = phi, accs, h, body, plain, 0
            e.rex, e.rmo, e.setf = rex, rmo, st
            e.inductive |= set(accs)
            e.setarg = next(k for k, a in enumerate(st.args) if a.ty.k == "int")
            if plain:
                e.on_branch = plainbranch(e)
            e.run()
            ctx.need(e.passes, "the computation of the modifiers looks at no layer")
            e.flush(ctx, "compute:" + ("all:" if plain else ""))
    ctx.need(n, "the loop over the layers is not found")


def plainbranch(e):
    """With no layer left out nothing may be left out."""
    f = type(e).on_branch

    def g(s, t, c, want):
        r = f(e, s, t, c, want)
        e.drop(s, lambda x: x == ("own",))
        return r
    return g


def coverage(ctx, m, cfg, h):
    """All layers, from the first to the last."""
    ms = ModSets(m)
    ok, okb = False, set()
    for p, init, step in cfg.counted(h):
        for b, pred, x, off in cfg.bound(h, p):
            xs = strip(x)
            while isinstance(xs, Inst) and xs.op in ("add", "sub") and isinstance(xs.ops[1], Const):
                k = xs.ops[1].v if xs.op == "add" else -xs.ops[1].v
                if k >= 1 << (xs.ty.a - 1):
                    k -= 1 << xs.ty.a
                off, xs = off - k, strip(xs.ops[0])
            if step == 1 and isinstance(xs, Inst) and xs.op == "load" and ms._addr(xs.ops[0])[1][-1:] == [("config", "nr_layers")]:
                okb.add(b)
                if isinstance(init, Const) and init.v == 0 and off == 0 and pred in ("ult", "slt", "ne"):
                    ok = True
                else:
                    ctx.violation("compute:range", "not all layers are taken into account", m.where(b.insts[-1]))
            elif step == -1:
                okb.add(b)
                ok = True
    if not ok and not okb:
        ctx.undecide("resync", "loop form not recognised")
    for b, s in cfg.exits(h):
        if okb and b not in okb and s.insts[-1].op != "unreachable":
            ctx.violation("compute:break", "the computation of the modifiers stops before the last layer", m.where(b.insts[-1]))


# ---------------------------------------------------------------- setting them

class Setting(Seq):
    """One modifier per pass. tags ('mask', value) ('key', value) ('on',) ('off',) ('down', value) ('sent', code, state)"""

    def rows(self, s, a):
        return isinstance(a, tuple) and a[0] == "a" and a[1] == ("g", self.table)

    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            if self.rows(s, a):
                lf = lastfield(a)
                k = "mask" if self.isnum(lf, "mask") else "key" if self.isnum(lf, "key") else None
                if k:
                    self.put(s, (k, canon(s.env[ins])))
            elif hasfield(a, ("keyboard", "keystate")):
                i = canon(elem(a, ("keyboard", "keystate")))
                c = canon(s.env[ins])
                sent = [x for x in self.get(s, "sent") if x[1] == i]
                if not sent:
                    self.put(s, ("down", i, s.env[ins]))

    def on_inst(self, s, ins):
        if ins.op == "icmp":
            a, b = self.val(s, ins.ops[0]), self.val(s, ins.ops[1])
            u, v = canon(a), canon(b)
            if v == 0 and isinstance(u, tuple) and (u[0] == "op" and u[1] == "and" or any(canon(x[2]) == u for x in self.get(s, "down"))):
                c = self.mkcmp(s, ins.pred, a, b)
                if not isinstance(c, int) and self.truth(s, c) is None:
                    out = []
                    for want in (True, False):
                        n = s.copy()
                        if self.assume(n, c, want) and self.on_branch(n, None, c, want) is not False:
                            out.append(n)
                    return out
        return Seq.on_inst(self, s, ins)

    def isnum(self, lf, what):
        return lf is not None and lf[1] == what

    def on_branch(self, s, t, c, want):
        neg = want
        if isinstance(c, tuple) and c[0] == "not":
            c, neg = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("eq", "ne") and c[3] == 0:
            on = neg == (c[1] == "ne")
            x = canon(c[2])
        else:
            on, x = neg, canon(c)
        for y in self.get(s, "down"):
            tr = self.truth(s, y[2])
            if tr is not None:
                self.put(s, ("st", y[1], int(tr)))
        if isinstance(x, tuple) and x[0] == "op" and x[1] == "and":
            p = {canon(x[2]), canon(x[3])}
            if self.arg in p and any(("mask", y) in s.auto for y in p - {self.arg}):
                if ("on",) in s.auto and not on or ("off",) in s.auto and on:
                    return False
                self.put(s, ("on",) if on else ("off",))

    def on_other(self, s, ins, args, n):
        if self.mod.fns.get(n) is self.keyf:
            self.events += 1
            ints = [canon(a) for a, o in zip(args, ins.ops) if o.ty.k == "int"]
            code, st = ints[0], self.const(s, ints[1])
            if not [x for x in self.get(s, "sent") if x[1] == code]:
                up = [x for x in self.get(s, "down") if x[1] == code and self.truth(s, x[2]) is False]
                self.put(s, ("first", code, bool(up)))
            self.drop(s, lambda x: x[0] == "sent" and x[1] == code)
            self.put(s, ("sent", code, st))

    def _edge(self, s, b, tgt, t, heap, w):
        if tgt is self.head and b in self.body:
            self.passes += 1
            self.judge(s, t)
            self.drop(s, lambda x: True)
        Seq._edge(self, s, b, tgt, t, heap, w)

    def judge(self, s, t):
        keys = {x[1] for x in self.get(s, "key")}
        on = True if ("on",) in s.auto else False if ("off",) in s.auto else None
        for x in self.get(s, "sent"):
            if x[1] not in keys and not (x[2] == 0 and ("first", x[1], True) in s.auto):
                self.report(s, t, "other", "another key is left in a different state when a modifier is set")
        st = None
        for k in keys:
            for x in self.get(s, "sent"):
                if x[1] == k:
                    st = x[2]
            if st is None:
                for x in self.get(s, "down"):
                    if x[1] == k:
                        tr = self.truth(s, x[2])
                        st = None if tr is None else int(tr)
                for x in self.get(s, "st"):
                    if st is None and x[1] == k:
                        st = x[2]
        if on is None:
            if self.get(s, "sent"):
                self.report(s, t, "unasked", "a modifier is changed without looking whether it is wanted")
            elif keys or self.get(s, "mask"):
                self.report(s, t, "skip", "a modifier is not brought in line")
            else:
                self.report(s, t, "skip", "a modifier is not considered")
        elif on and st != 1:
            self.report(s, t, "press", "a modifier which is wanted is not pressed")
        elif not on and st != 0:
            self.report(s, t, "release", "a modifier which is not wanted is not released")


def setting(ctx):
    m = ctx.mod
    f = ctx.need(setter(m), "the function which sets the modifiers is not found")
    k = key_fn(m)
    g = inline(m, f, lambda c, ch: c.file == KFILE and c is not k and c is not descriptor_fn(m))
    cfg = CFG(g)
    ms = ModSets(m)
    n = 0
    for h, body in cfg.loops.items():
        tabs = set()
        for b in body:
            for i in b.insts:
                if i.op == "load":
                    r, p = ms._addr(i.ops[0])
                    if isinstance(r, GRef) and p and p[-1][1] == "mask":
                        tabs.add(r.name)
        if len(tabs) != 1 or any(h in cfg.loops[x] for x in cfg.loops if x is not h):
            continue
        n += 1
        e = Setting(m, g)
        e.table, e.keyf, e.head, e.body, e.passes = tabs.pop(), k, h, body, 0
        e.arg = ("v", next(a for a in g.args if a.ty.k == "int"))
        gl = m.globals.get(e.table)
        size = m.resolve(gl.ty).a if gl is not None and m.resolve(gl.ty).k == "arr" else None
        ok, okb = None, set()
        for p, init, step in cfg.counted(h):
            for b, pred, x, off in cfg.bound(h, p):
                if isinstance(x, Const) and isinstance(init, Const) and step == 1:
                    okb.add(b)
                    last = x.v - off - (0 if pred in ("sle", "ule") else 1)
                    ok = init.v == 0 and last == size - 1
                    if not ok:
                        ctx.violation("set:range", "not every modifier is brought in line", m.where(b.insts[-1]))
        if ok is None:
            ctx.undecide("set", "loop form not recognised")
        for b, s in cfg.exits(h):
            if okb and b not in okb and s.insts[-1].op != "unreachable":
                ctx.violation("set:break", "the modifiers after some are not brought in line", m.where(b.insts[-1]))
        e.run()
        ctx.need(e.passes, "no modifier is set")
        e.flush(ctx, "set:")
        ctx.count("modifiers", size or 0)
    ctx.need(n, "the loop over the modifiers is not found")


def run(ctx):
    ctx.rule("modifiers are in line when an action's key has been released", lambda c: c.pmap(action, sorted(ops(c.mod).items())))
    ctx.rule("expiry and the end of a macro bring the modifiers in line", engine)
    ctx.rule("the modifiers are computed from all active layers", compute)
    ctx.rule("every modifier key is set as computed", setting)
