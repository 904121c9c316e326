"""C08: output key state. Every function of the engine that sends keys or writes the per-key record is simulated path by path: a
transition is sent exactly when the record of that key is known to differ, and the record is set to the transition sent. The loops that
release everything cover all 256 codes and skip nothing that is down; clear and layout switches reach that loop on every path. In the
daemon every key handed to the output is recorded first, and a reload ends by releasing everything recorded."""
from seq import *


def keystate(m, addr, glob=None):
    """The index of an element of the per-key record, or None."""
    if not (isinstance(addr, tuple) and addr[0] == "a"):
        return None
    if glob is None:
        return elem(addr, ("keyboard", "keystate")) if hasfield(addr, ("keyboard", "keystate")) else None
    if addr[1] == ("g", glob):
        return canon(addr[2][0][1]) if addr[2] else 0
    return None


class Pair(Seq):
    glob = None

    def sends(self, ins, args):
        return None

    def seed(self, s):
        self.n = 0

    def after_inst(self, s, ins):
        if ins.op == "load":
            i = keystate(self.mod, self.val(s, ins.ops[0]), self.glob)
            if i is None:
                return
            old = [x for x in self.get(s, "was") if x[1] == i]
            if not old:
                self.put(s, ("was", i, s.env[ins]))
            elif not [x for x in self.get(s, "rec") if x[1] == i]:
                s.env[ins] = old[0][2]      # the same index, written with another type

    def sent(self, s, ins, code, state):
        code = canon(code)
        if [x for x in self.get(s, "sent") if x[1] == code]:
            self.report(s, ins, "twice", "a transition is sent twice")
        for x in self.get(s, "was"):
            if x[1] == code:
                d = self.decide(s, "eq", canon(x[2]), canon(state))
                if d is None:
                    d = self.decide(s, "eq", x[2], state)
                if d is None and self.const(s, state) is not None:
                    t = self.truth(s, x[2])
                    d = None if t is None else bool(t) == bool(self.const(s, state))
                if d is not False:
                    self.report(s, ins, "unchanged", "a key transition is sent although the recorded state may already be the same")
                break
        else:
            self.report(s, ins, "unchecked", "a key transition is sent without looking at the recorded state of that key")
        self.put(s, ("sent", code, canon(state)))

    def on_indirect(self, s, ins, args):
        if len(args) == 2:
            self.events += 1
            self.sent(s, ins, args[0], args[1])

    def on_store(self, s, ins, addr, v):
        i = keystate(self.mod, addr, self.glob)
        if i is not None:
            self.events += 1
            self.put(s, ("rec", i, canon(v)))

    defer = lenient = False
    silent = ()

    def on_branch(self, s, t, c, want):
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp" and (c[1], want) in (("eq", True), ("ne", False)) and any(self.const(s, x) in self.silent for x in c[2:4]):
            self.put(s, ("silent",))
        for x in self.get(s, "was"):
            if self.truth(s, x[2]) is False:
                self.put(s, ("up",))
        return Seq.on_branch(self, s, t, c, want)

    def judge(self, s, t):
        sent, rec = self.get(s, "sent"), self.get(s, "rec")
        for x in sent:
            r = [y for y in rec if y[1] == x[1]]
            if not r and self.defer and self.const(s, x[2]) == 0:
                self.put(s, ("owed", "a transition is sent without being recorded"))
            elif not r:
                self.report(s, t, "unrecorded", "a transition is sent without being recorded")
            elif not any(self.same(s, y[2], x[2]) for y in r):
                self.report(s, t, "misrecorded", "the state recorded for a key is not the one that was sent")
        for y in rec if not self.lenient else ():
            if not any(x[1] == y[1] for x in sent):
                w = [x[2] for x in self.get(s, "was") if x[1] == y[1]]
                if not any(self.same(s, canon(a), y[2]) for a in w):
                    self.report(s, t, "unsent", "the recorded state of a key changes without the key being sent")

    def same(self, s, a, b):
        if a == b:
            return True
        return self.decide(s, "eq", a, b) is True

    def end(self, s, t):
        self.judge(s, t)

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op == "ret":
            self.end(s, t)

    def _edge(self, s, b, tgt, t, heap, w):
        if tgt in self.heads and b in self.heads[tgt]:
            self.judge(s, t)
            self.iteration(s, t)
            self.drop(s, lambda x: x[0] in ("was", "sent", "rec", "silent", "up"))
        if not isinstance(w, (str, bool)) and w in self.silent:
            self.put(s, ("silent",))
        Seq._edge(self, s, b, tgt, t, heap, w)

    def iteration(self, s, t):
        pass


class Reset(Pair):
    defer = True

    def wipe(self, s, ins, args):
        m = self.mod
        base = canon(args[0])
        size = self.const(s, args[2])
        v = self.const(s, args[1])
        i = keystate(m, base, self.glob) if isinstance(base, tuple) and base[0] == "a" else None
        whole = isinstance(base, tuple) and base[0] == "a" and (self.glob is None and base[2] and base[2][-1] == ("f", "keyboard", "keystate") or self.glob is not None and base[1] == ("g", self.glob) and not base[2])
        if (i == 0 or whole) and v == 0 and size == 256:
            self.drop(s, lambda x: x[0] == "owed")

    def on_other(self, s, ins, args, n):
        if n.startswith("llvm.memset") or n == "memset":
            self.wipe(s, ins, args)
        return Pair.on_other(self, s, ins, args, n)

    def end(self, s, t):
        Pair.end(self, s, t)
        for x in self.get(s, "owed"):
            self.report(s, t, "unrecorded", x[1])

    def iteration(self, s, t):
        for x in self.get(s, "was"):
            if self.truth(s, x[2]) is not False and not self.get(s, "sent") and not self.get(s, "silent") and not self.get(s, "up") and not (self.lenient and self.get(s, "rec")):
                self.report(s, t, "kept", "a key that is down is not released")
        if not self.get(s, "was"):
            self.report(s, t, "skipped", "some keys are not considered for release")




class Single(Pair):
    """The engine's key output for one key: decides all paths, for all codes between two of the codes which are never sent."""

    def seed(self, s):
        Pair.seed(self, s)
        c = ("v", self.codearg)
        s.facts[c] = (self.span[0], self.span[1], frozenset())

    def end(self, s, t):
        self.judge(s, t)
        if self.get(s, "sent"):
            return
        st = ("v", self.statearg)
        for x in self.get(s, "was"):
            if self.decide(s, "eq", canon(x[2]), st) is True or self.decide(s, "eq", x[2], st) is True:
                return
        self.report(s, t, "swallowed", "a key transition that changes the recorded state is not sent")


def idxof(p, v):
    """v is the induction variable p (or p +- constant)"""
    v = strip(v)
    if isinstance(v, Inst) and v.op in ("add", "sub") and isinstance(v.ops[1], Const):
        v = strip(v.ops[0])
    return v is p


def zeroed(m, ms, i, glob):
    """The index of the record element which instruction i sets to 0, or the code which it releases."""
    if i.op == "store" and isinstance(i.ops[0], Const) and i.ops[0].v == 0:
        root, fs = ms._addr(i.ops[1])
        if glob is None and fs[-1:] == [("keyboard", "keystate")] or glob is not None and isinstance(root, GRef) and root.name == glob:
            g = i.ops[1]
            return g.ops[-1] if isinstance(g, Inst) and g.op == "getelementptr" else None
    if i.op == "call" and isinstance(i.ops[-1] if i.ops else None, Const) and i.ops[-1].v == 0:
        if not isinstance(i.callee, GRef) and len(i.ops) == 2:
            return i.ops[0]
        if isinstance(i.callee, GRef) and i.callee.name == "vkbd_send_key":
            return i.ops[1]
    return None


def resetloops(m, f, cfg, glob=None):
    """Counted loops which release every key they visit: header -> an instruction in it"""
    out = {}
    ms = ModSets(m)
    for i in f.insts():
        v = zeroed(m, ms, i, glob)
        if v is None:
            continue
        for h in cfg.loops_of(i.block)[:1]:
            for p in h.insts:
                if p.op != "phi":
                    break
                if idxof(p, v) or isinstance(strip(v), Inst) and strip(v).op == "phi" and idxof(p, strip(v)):
                    out.setdefault(h, i)
    return out


def releasing(m, f, want, glob=None):
    """(function, its release loops): callees are inlined when the loop only shows then."""
    cfg = CFG(f)
    if not cfg.loops:
        return f, cfg, {}
    rl = resetloops(m, f, cfg, glob)
    if not rl:
        g = inline(m, f, want)
        c2 = CFG(g)
        r2 = resetloops(m, g, c2, glob)
        if r2 and len(c2.loops) == len(cfg.loops):
            return g, c2, r2
    return f, cfg, rl


def cover(ctx, m, cfg, h, ins, what):
    """The loop visits codes (0 or 1)..255."""
    ok, okb = None, set()
    for p, init, step in cfg.counted(h):
        for b, pred, x, off in cfg.bound(h, p):
            if not isinstance(x, Const) or not isinstance(init, Const):
                continue
            w = p.ty.a
            first, last = init.v, None
            if step == 1:
                last = x.v - off - (0 if pred in ("sle", "ule") else 1)
            elif step == -1:
                first, last = (x.v if pred in ("sge", "uge") else x.v + 1) - off, init.v
                if first >= 1 << (w - 1):
                    first = 0
            if last is None or pred in ("eq", "ne") and not (x.v - off) % (1 << w) in (0, 255, 256, (1 << w) - 1):
                continue
            okb.add(b)
            ok = first <= 1 and last >= 255
            if not ok:
                ctx.violation(what + ":range", f"only the codes {first}..{last} are released", m.where(ins))
    if ok is None:
        ctx.undecide(m.where(ins), "loop form not recognised")
    for b, s in cfg.exits(h):
        if okb and b not in okb and s.insts[-1].op != "unreachable":
            ctx.violation(what + ":break", "the release of all keys stops early", m.where(b.insts[-1]))


def engine(ctx):
    m = ctx.mod
    ms = ModSets(m)
    key = ctx.need(key_fn(m), "the engine's key output function is not found")
    n = 0
    for f in m.fns.values():
        if f.file != KFILE:
            continue
        ind = any(i.op == "call" and not isinstance(i.callee, GRef) and len(i.ops) == 2 for i in f.insts())
        st = any(i.op == "store" and ms._addr(i.ops[1])[1][-1:] == [("keyboard", "keystate")] for i in f.insts())
        rel = f is not key and releasing(m, f, lambda c, ch: c is key)[2]
        if not ind and not st and not rel:
            continue
        n += 1
        cfg = CFG(f)
        if f is key:
            e = Single(m, f)
            ints = [a for a in f.args if a.ty.k == "int"]
            e.codearg, e.statearg = ints[0], ints[1]
            cuts = [-1] + sorted({m.enum("KEYD_NOOP"), m.enum("KEYD_EXTERNAL_MOUSE_BUTTON")}) + [256]
            e.heads = {h: cfg.loops[h] for h in cfg.loops}
            for lo, hi in zip(cuts, cuts[1:]):
                if hi - lo > 1:
                    e.span = (lo + 1, hi - 1)
                    e.run()
                    e.flush(ctx, f.src + ":")
            ctx.count("senders_engine")
            continue
        else:
            g, cfg, rl = releasing(m, f, lambda c, ch: c is key)
            e = (Reset if rl else Pair)(m, g)
            for h, ins in rl.items():
                ctx.count("release_loops")
                cover(ctx, m, cfg, h, ins, f.src)
        e.heads = {h: cfg.loops[h] for h in cfg.loops}
        e.silent = {m.enum("KEYD_NOOP"), m.enum("KEYD_EXTERNAL_MOUSE_BUTTON")}
        e.run()
        e.flush(ctx, f.src + ":")
    ctx.count("senders", n)
    # nobody else is given the raw output, except the macro interpreter (C09)
    for f in m.fns.values():
        if f.file != KFILE:
            continue
        for i in f.insts():
            if i.op == "load" and ms._addr(i.ops[0])[1][-1:] == [("output", "send_key")]:
                for u in f.insts():
                    if i in u.ops and u.op == "call" and isinstance(u.callee, GRef) and u.callee.name in m.fns and m.fns[u.callee.name].src != "macro_execute":
                        ctx.violation("raw:" + f.src, "the unrecorded output is handed to other code", m.where(u))


class Clears(DescEngine):
    def initial(self):
        return False

    def on_exit(self, s, t):
        if t.op == "ret":
            self.ends.append((s.auto, s, t))

    def _enter(self, s, b, heap):
        if b in self.heads:
            s.auto = True
        DescEngine._enter(self, s, b, heap)


def clears(ctx):
    m = ctx.mod
    opt = ops(m)
    d = descriptor_fn(m)
    fn = inline(m, d, local_want(m))
    ms = ModSets(m)
    cfg = CFG(fn)
    rl = resetloops(m, fn, cfg)
    ctx.need(rl, "no loop releases all keys")
    for name in ("OP_CLEAR", "OP_CLEARM", "OP_LAYOUT"):
        e = Clears(m, fn, ms, opt[name], 1)
        e.heads, e.ends = rl, []
        e.run()
        ctx.count("clearing_actions")
        ctx.need(e.ends, f"{name}: no path returns")
        for a, s, t in e.ends:
            if not a:
                ctx.violation(name, f"{name} does not release the keys that are down", m.where(t), trace_str(s.trace))


class Out(Seq):
    """The daemon's key output: everything sent is recorded."""

    def on_store(self, s, ins, addr, v):
        i = keystate(self.mod, addr, self.glob)
        if i is None:
            return
        self.events += 1
        if i != ("v", self.code):
            self.report(s, ins, "index", "the wrong key is recorded")
        if canon(v) != ("v", self.state) and not self.equal(s, v):
            self.report(s, ins, "value", "the state recorded for a key is not the one that is sent")
        self.put(s, ("rec",))

    def equal(self, s, v):
        st = ("v", self.state)
        if self.decide(s, "eq", v, st) is True:
            return True
        a, b = self.truth(s, v), self.truth(s, st)
        return a is not None and a == b

    def call_vkbd_send_key(self, s, ins, args):
        if canon(args[1]) != ("v", self.code) or canon(args[2]) != ("v", self.state) and not self.equal(s, args[2]):
            self.report(s, ins, "forward", "another transition is sent than the engine asked for")

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op == "ret" and not self.get(s, "rec"):
            self.report(s, t, "unrecorded", "the daemon sends a key without recording it")


def outfn(ctx):
    """The function the daemon gives the engine as its key output."""
    m = ctx.mod
    ms = ModSets(m)
    names = set()
    for f in m.fns.values():
        if f.file != "src/daemon.c":
            continue
        for i in f.insts():
            if i.op == "store" and isinstance(i.ops[0], GRef) and i.ops[0].name in m.fns and ms._addr(i.ops[1])[1][-1:] == [("output", "send_key")]:
                names.add(i.ops[0].name)
    for g in m.globals.values():
        if g.init is not None and isinstance(g.init, Agg) and g.ty.k == "named" and "output" in str(g.ty.a):
            for x in g.init.elems:
                if isinstance(x, GRef) and x.name in m.fns and m.fns[x.name].args and m.fns[x.name].args[0].ty.k == "int":
                    names.add(x.name)
    return [m.fns[n] for n in names]


def daemon(ctx):
    m = ctx.mod
    ms = ModSets(m)
    fs = ctx.need(outfn(ctx), "the daemon's key output is not found")
    glob = set()
    for f in fs:
        g = inline(m, f, lambda c, ch: c.file == "src/daemon.c")
        rec = {r.name for i in g.insts() if i.op == "store" for r in [ms._addr(i.ops[1])[0]] if isinstance(r, GRef) and m.globals[r.name].ty.k == "arr"}
        glob |= rec
    ctx.need(len(glob) == 1, "the daemon's record of keys is not found")
    glob = glob.pop()
    for f in fs:
        g = inline(m, f, lambda c, ch: c.file == "src/daemon.c")
        e = Out(m, g)
        e.glob = glob
        e.code, e.state = g.args[0], g.args[1]
        e.run()
        e.flush(ctx, "out:")
    # the loop that releases everything
    found = set()
    for f in m.fns.values():
        if f.file != "src/daemon.c":
            continue
        f0 = f
        f, cfg, rl = releasing(m, f, lambda c, ch: c in fs, glob)
        for h, ins in rl.items():
            found.add(f.name)
            ctx.count("release_loops")
            cover(ctx, m, cfg, h, ins, f.src)
        if rl:
            class R(Reset):
                def call_vkbd_send_key(self, s, ins, args):
                    self.sent(s, ins, args[1], args[2])
            e = R(m, f)
            e.glob = glob
            e.lenient = f is not f0
            e.heads = {h: cfg.loops[h] for h in rl}
            e.run()
            e.flush(ctx, f.src + ":")
    if not found:
        ctx.violation("nothing", "no loop releases all keys recorded by the daemon", fs[0].file)
        return
    # reloading ends with it
    rld = ctx.need(m.fn("reload", "src/daemon.c"), "reload not found")
    g = inline(m, rld, lambda c, ch: c.file == "src/daemon.c" and (c in fs or c.name in found or found & {x.name for x in reachset(m, c)}))
    rl = resetloops(m, g, CFG(g), glob)

    class Rel(Seq):
        def _enter(self, s, b, heap):
            if b in rl:
                self.put(s, ("released",))
            Seq._enter(self, s, b, heap)

        def on_exit(self, s, t):
            if t.op == "ret" and not self.get(s, "released"):
                self.report(s, t, "unreleased", "a reload does not release the keys that are down")
    e = Rel(m, g)
    e.run()
    e.flush(ctx, "reload:")


def reachset(m, f):
    seen, work = {f}, [f]
    while work:
        g = work.pop()
        for i in g.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
                h = m.fns[i.callee.name]
                if h not in seen:
                    seen.add(h)
                    work.append(h)
    return seen


def run(ctx):
    ctx.rule("a transition is sent exactly when it changes the record, and is recorded", engine)
    ctx.rule("clear, clearm and setlayout release every key that is down", clears)
    ctx.rule("the daemon records what it sends and a reload releases it", daemon)
