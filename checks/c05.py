"""C05: a release undoes what the press did. The engine step (with everything it calls in keyboard.c inlined up to the action interpreter,
the binding lookup and the key cache) and every action of the interpreter are followed path by path. A press is handed to the interpreter
only with an action which the cache remembers for that key, a release only with the action taken from the cache, which is freed first;
a press is ignored when the key is already held or cannot be remembered. Every press nested in an action is remembered in the cache. The
cache's own functions are decided by exhaustive simulation over its slots, the rest of the engine does not write to it except swap."""
from seq import *

ASSUMPTIONS = ["key events handed to the engine carry code 0 only for a timeout"]


def prims(ctx):
    """(get, set): the cache's own functions."""
    m = ctx.mod
    g, s = m.fn("cache_get", KFILE), m.fn("cache_set", KFILE)
    ms = ModSets(m)
    for f in m.fns.values():
        if f.file != KFILE or not CFG(f).loops or any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns for i in f.insts()):
            continue
        ld = any(i.op == "load" and ms._addr(i.ops[0])[1][-1:] == [("cache_entry", "code")] for i in f.insts())
        st = any(i.op == "store" and ms._addr(i.ops[1])[1][-1:] == [("cache_entry", "code")] for i in f.insts())
        if ld and st and s is None:
            s = f
        if ld and not st and g is None and f.ret.k == "ptr":
            g = f
    return ctx.need(g, "the function which looks up a held key is not found"), ctx.need(s, "the function which remembers a held key is not found")


def slots(m):
    ft = m.fieldty("keyboard", "cache")
    return ft.n if hasattr(ft, "n") else ft.a[0] if isinstance(ft.a, tuple) else m.sizeof(ft) // m.structsize("cache_entry")


class Slots(Seq):
    """The cache's own functions, slot by slot. tags: ('match', k) ('free', k) ('differs', k) ('put', k) ('code', k, v)"""

    def kof(self, addr):
        return elem(addr, ("keyboard", "cache")) if hasfield(addr, ("keyboard", "cache")) else None

    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            k = self.kof(a)
            if k is not None and a[2][-1] == ("f", "cache_entry", "code"):
                self.drop(s, lambda x: x[0] == "ld")
                self.put(s, ("ld", k, s.env[ins]))

    def on_branch(self, s, t, c, want):
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        for x in self.get(s, "ld"):
            if isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("eq", "ne"):
                l, r = canon(c[2]), canon(c[3])
                if x[2] in (l, r):
                    o = r if l == x[2] else l
                    eq = want == (c[1] == "eq")
                    if o == ("v", self.code):
                        if eq:
                            if any(y[1] != x[1] for y in self.get(s, "match")):
                                return False        # a key has one slot
                            self.put(s, ("match", x[1]))
                        else:
                            self.seen(s, x[1])
                    elif o == 0 and eq:
                        self.isfree(s, x[1])
            elif c == x[2] and not want:
                self.isfree(s, x[1])

    def seen(self, s, k):
        n = max([0] + [x[1] for x in self.get(s, "seen")])
        d = {x[1] for x in self.get(s, "differs")} | {k}
        while n in d:
            d.discard(n)
            n += 1
        # also downwards
        self.drop(s, lambda x: x[0] in ("seen", "differs"))
        self.put(s, ("seen", n), *[("differs", x) for x in d])

    def isfree(self, s, k):
        if not isinstance(k, int):
            return
        ks = sorted({x[1] for x in self.get(s, "free")} | {k})
        self.drop(s, lambda x: x[0] == "free")
        self.put(s, ("free", ks[0]), ("free", ks[-1]))

    def nseen(self, s):
        return max([0] + [x[1] for x in self.get(s, "seen")]) + len({x[1] for x in self.get(s, "differs")})

    def on_store(self, s, ins, addr, v):
        k = self.kof(addr)
        if k is None:
            return
        self.events += 1
        if addr[2][-1] == ("f", "cache_entry", "code"):
            self.chosen(s, ins, k)
            self.drop(s, lambda x: x[0] == "code" and x[1] == k)
            self.put(s, ("code", k, canon(v)))

    def on_other(self, s, ins, args, n):
        if n.startswith(("llvm.memcpy", "memcpy", "llvm.memset", "memset", "llvm.memmove")):
            k = self.kof(args[0])
            if k is None:
                return
            self.events += 1
            self.chosen(s, ins, k)
            self.drop(s, lambda x: x[0] == "code" and x[1] == k)
            if n.lstrip("lvm.").startswith("memset"):
                self.put(s, ("code", k, 0))
            else:
                if canon(args[1]) != ("v", self.ent) or self.const(s, args[2]) != self.mod.structsize("cache_entry"):
                    self.report(s, ins, "partial", "something else than the given entry is remembered")
                self.put(s, ("put", k))

    def chosen(self, s, ins, k):
        if ("match", k) in s.auto:
            return
        n = self.nseen(s)
        if ("free", k) in s.auto and n >= self.n:
            return
        if ("free", k) in s.auto and self.truth(s, ("v", self.ent)) is False:
            return
        self.report(s, ins, "slot", "a slot of the cache is written which neither belongs to the key nor is free after looking at all of them")

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        Seq.on_exit(self, s, t)
        v = self.val(s, t.ops[0])
        if self.ent is None:
            ks = {x[1] for x in self.get(s, "match")}
            if self.const(s, v) == 0:
                if ks:
                    self.report(s, t, "lost", "a held key is not found")
                elif self.nseen(s) < self.n:
                    self.report(s, t, "short", "a key may be held although it is not found: some slots are not looked at")
            elif not (isinstance(v, tuple) and v[0] == "a" and self.kof(v) in ks):
                self.report(s, t, "wrong", "the slot of another key is found")
            return
        ent = ("v", self.ent)
        codes = self.get(s, "code")
        r = self.const(s, v)
        if self.truth(s, ent) is None:
            if codes:
                self.report(s, t, "entry", "whether an entry is given makes no difference")
        if r == 0:
            matches = {x[1] for x in self.get(s, "match")}
            if self.truth(s, ent) is False:
                if matches and not any(x[2] == 0 and x[1] in matches for x in codes):
                    self.report(s, t, "kept", "a key which is released is not freed")
            else:
                if not any(canon(x[2]) == ("v", self.code) and ("put", x[1]) in s.auto for x in codes):
                    self.report(s, t, "unremembered", "success is reported although the key is not remembered")
                if matches and not any(x[1] in matches for x in codes):
                    self.report(s, t, "dup", "a key is remembered twice")
        elif r is not None:
            if codes or self.get(s, "put"):
                self.report(s, t, "failed", "failure is reported although the cache was changed")
            if self.get(s, "match") or self.get(s, "free"):
                self.report(s, t, "refused", "a key is refused although there is a slot for it")
            if self.nseen(s) < self.n:
                self.report(s, t, "early", "a key is refused without looking at all slots")


def cache(ctx):
    m = ctx.mod
    get, put = prims(ctx)
    n = m.sizeof(m.fieldty("keyboard", "cache")) // m.structsize("cache_entry")
    ctx.count("cache_slots", n)
    for f, isput in ((get, 0), (put, 1)):
        e = Slots(m, f)
        e.code = next(a for a in f.args if a.ty.k == "int")
        ptrs = [a for a in f.args if a.ty.k == "ptr"]
        e.ent = ptrs[1] if isput else None
        e.n = n
        cfg = CFG(f)
        if not e.unroll(cfg, limit=n + 1):
            ctx.violation(f.src + ":loop", "the slots of the cache are not all looked at", m.where(f.blocks[0].insts[0]))
            continue
        if isput:
            e.flagged = True
        e.run()
        e.flush(ctx, f.src + ":")


class Flow(Seq):
    """tags: ('cp', dst, origin) ('got', code, value) ('set', code, origin, value) ('free', code) ('press', code, origin) ('done', code)"""
    op = None

    def seed(self, s):
        if self.op is not None:
            s.env[self.parg] = self.pressed
            s.mem[(("a", ("v", self.darg), (("f", "descriptor", "op"),)), 4)] = self.op

    def _mayalias(self, a, b):
        if self.op is not None:
            return DescEngine._mayalias(self, a, b)
        return Seq._mayalias(self, a, b)

    # -- where the contents of a descriptor come from
    def origin(self, s, a):
        a = canon(a)
        for x in self.get(s, "cp"):
            if x[1] == a:
                return x[2]
        if isinstance(a, tuple) and a[0] == "a" and a[2] and a[2][-1] == ("f", "cache_entry", "d"):
            return ("at", ("a", a[1], a[2][:-1]), "d")
        return ("at", a)

    def soil(self, s, a):
        """The memory at a changed."""
        if not (isinstance(a, tuple) and a[0] == "a"):
            a = ("a", a, ())
        r = a[1]
        if not (r[0] == "al" if isinstance(r, tuple) else False):
            return
        def hit(x):
            return x[0] == "cp" and isinstance(x[1], tuple) and x[1][0] == "a" and x[1][1] == r and (x[1][2][:len(a[2])] == a[2] or a[2][:len(x[1][2])] == x[1][2])
        self.drop(s, hit)
        # others which were copied from here keep what they had
        for x in list(s.auto):
            if x[0] in ("cp", "set", "press") and x[2][0] == "at" and isinstance(x[2][1], tuple) and x[2][1][0] == "a" and x[2][1][1] == r:
                s.auto = s.auto - {x} | {(x[0], x[1], ("was",) + x[2][1:]) + x[3:]}

    def entryd(self, a):
        """a is .d of an element of the cache: the address of the entry."""
        if isinstance(a, tuple) and a[0] == "a" and a[2] and a[2][-1] == ("f", "cache_entry", "d"):
            return ("a", a[1], a[2][:-1])
        return None

    def incache(self, s, e):
        """e addresses an entry of the cache itself"""
        return hasfield(e, ("keyboard", "cache")) or any(x[2] == e or ("a", x[2], ()) == e for x in self.get(s, "got"))

    def copy(self, s, ins, dst, src, n):
        o = self.origin(s, src)
        e = self.entryd(dst)
        if e is None and n >= self.mod.structsize("cache_entry") and hasfield(dst, ("keyboard", "cache")):
            self.report(s, ins, "overwrite", "an entry of the cache is overwritten")
            return
        if e is not None and self.incache(s, e):
            self.update(s, ins, e, o)
            return
        self.soil(s, dst)
        if n == self.dsize:
            self.put(s, ("cp", canon(dst), o))
        elif isinstance(src, tuple) and isinstance(dst, tuple) and src[0] == dst[0] == "a":
            for x in self.get(s, "cp"):     # larger structures containing descriptors
                if x[1][0] == "a" and x[1][1] == src[1] and x[1][2][:len(src[2])] == src[2]:
                    self.put(s, ("cp", ("a", dst[1], dst[2] + x[1][2][len(src[2]):]), x[2]))

    def owner(self, s, e):
        """The key whose entry e is known to be."""
        for x in self.get(s, "got"):
            if x[2] == e or ("a", x[2], ()) == e:
                return x[1]
        for a, v in s.mem.items():
            if a[0] == ("a", e[1], e[2] + (("f", "cache_entry", "code"),)):
                for c in self.codes(s):
                    if self.decide(s, "eq", v, c) is True or self.decide(s, "eq", canon(v), c) is True:
                        return c
        return None

    def codes(self, s):
        return {x[1] for x in self.get(s, "press") + self.get(s, "set")} | ({("v", self.carg)} if self.carg else set())

    def update(self, s, ins, e, o):
        """The action remembered for a key is replaced."""
        self.events += 1
        c = self.owner(s, e)
        p = [x for x in self.get(s, "press") if x[1] == c]
        if c is None or not p:
            self.report(s, ins, "rebind", "the action remembered for a key is replaced by one which was not performed for it")
            return
        for x in p:
            if x[2] != o:
                self.report(s, ins, "rebind", "the action remembered for a key is not the one which was performed")
            self.put(s, ("kept", x[1], x[2]))

    def on_store(self, s, ins, addr, v):
        if self.op is None and hasfield(addr, ("keyboard", "pending_key")) and addr[2][-1] == ("f", "key_event", "code"):
            if ("up",) not in s.auto and self.truth(s, ("v", self.iarg)) is not False and not self.null(s, ("v", self.carg)):
                self.report(s, ins, "repeat", "a repeated press of a key which is already held takes part in a pending decision")
        if isinstance(addr, tuple) and addr[0] == "a":
            hit = [e for e in addr[2] if e[0] == "f" and e[1] == "cache_entry"]
            if hit and hit[0][2] in ("code", "dl", "d"):
                base = ("a", addr[1], addr[2][:addr[2].index(hit[0])])
                if self.incache(s, base) or hasfield(addr, ("keyboard", "cache")):
                    self.events += 1
                    if not (self.op in self.swaps and hit[0][2] == "d"):
                        self.report(s, ins, "poke", "the memory of a held key is changed")
                    elif addr[2][-1] == ("f", "descriptor", "op") and self.const(s, v) != self.layer:
                        self.report(s, ins, "poke", "the memory of a held key is changed to something else than a layer")
        self.soil(s, addr)

    def on_other(self, s, ins, args, n):
        if n.startswith(("llvm.memcpy", "memcpy", "llvm.memmove", "memmove")):
            k = self.const(s, args[2])
            self.copy(s, ins, args[0], args[1], k or 0)
            return
        f = self.mod.fns.get(n)
        if n.startswith(("llvm.memset", "memset")):
            if hasfield(args[0], ("keyboard", "cache")):
                self.report(s, ins, "poke", "the memory of held keys is changed")
            self.soil(s, args[0])
            return
        if n.startswith("llvm."):
            return
        if f is self.get_fn:
            return
        if f is self.set_fn:
            return self.remember(s, ins, args)
        if f is self.desc_fn:
            return self.perform(s, ins, args)
        if f is self.event_fn:
            self.events += 1
            if self.op is not None:
                self.drop(s, lambda x: x[0] in ("set", "got"))
        for a, o in zip(args, ins.ops):
            if o.ty.k == "ptr":
                self.soil(s, a)

    def after_inst(self, s, ins):
        if ins.op == "call" and isinstance(ins.callee, GRef):
            f = self.mod.fns.get(ins.callee.name)
            if f is self.get_fn:
                self.events += 1
                c = canon(self.val(s, self.arg(ins, self.get_fn, "int", 0)))
                self.drop(s, lambda x: x[0] in ("got", "nul") and x[1] == c)
                v = s.env[ins]
                self.put(s, ("got", c, v[1] if isinstance(v, tuple) and v[0] == "a" else v))
            elif f is self.set_fn and getattr(self, "_pending", None):
                c, o, dl = self._pending
                self._pending = None
                if o is not None:
                    self.put(s, ("set", c, o, dl, s.env[ins]))

    def arg(self, ins, f, kind, k):
        return [o for a, o in zip(f.args, ins.ops) if a.ty.k == kind][k]

    def succeeded(self, s, v):
        if self.truth(s, v) is False:
            return True
        l, h, _ = self.rng(s, v)
        return all(r < l or r > h for r in self.fails)

    def null(self, s, c):
        """The key is known not to be held."""
        return any(x[1] == c and self.truth(s, x[2]) is False for x in self.get(s, "got")) or ("free", c) in s.auto or ("nul", c) in s.auto

    def remember(self, s, ins, args):
        self.events += 1
        f = self.set_fn
        vals = {a: v for a, v in zip(f.args, args)}
        c = canon(next(v for a, v in vals.items() if a.ty.k == "int"))
        ent = [v for a, v in vals.items() if a.ty.k == "ptr"][1]
        self._pending = None
        if self.const(s, ent) == 0:
            self.drop(s, lambda x: x[0] == "set" and x[1] == c)
            self.put(s, ("free", c))
            return
        e = ent if isinstance(ent, tuple) and ent[0] == "a" else ("a", ent, ())
        o = self.origin(s, ("a", e[1], e[2] + (("f", "cache_entry", "d"),)))
        dl = None
        for (a, w), v in s.mem.items():
            if a == ("a", e[1], e[2] + (("f", "cache_entry", "dl"),)):
                dl = v
        if any(x[1] == c for x in self.get(s, "done")):
            self.report(s, ins, "late", "a key is remembered only after its action was carried out")
        if self.op is None and c == ("v", self.carg) and not self.null(s, c):
            self.report(s, ins, "second", "a second press of a key which is already held is acted upon")
        self.drop(s, lambda x: x[0] == "set" and x[1] == c or x in (("free", c), ("nul", c)))
        self._pending = (c, o, dl)

    def perform(self, s, ins, args):
        self.events += 1
        f = self.desc_fn
        ptrs = [v for a, v in zip(f.args, args) if a.ty.k == "ptr"]
        ints = [v for a, v in zip(f.args, args) if a.ty.k == "int"]
        c, d = canon(ints[0]), ptrs[1]
        dl, p = ints[1], self.truth(s, ints[2])
        o = self.origin(s, d)
        if p is None:
            self.report(s, ins, "direction", "the action of a key is carried out without knowing whether it was pressed or released")
            return
        rec = [x for x in self.get(s, "set") if x[1] == c]
        if p:
            self.put(s, ("done", c))
            ok = [x for x in rec if x[2] == o]
            if rec and not ok:
                self.report(s, ins, "other", "the action carried out for a press is not the one which is remembered")
            elif not rec and self.op is None:
                self.report(s, ins, "unremembered", "a press is acted upon without being remembered")
            elif not rec:
                self.put(s, ("press", c, o))
            else:
                if self.op is None and c == ("v", self.carg) and not self.succeeded(s, ok[0][4]):
                    self.report(s, ins, "overflow", "a press which could not be remembered is acted upon")
                if ok[0][3] is not None and canon(ok[0][3]) != canon(dl) and self.decide(s, "eq", ok[0][3], dl) is not True:
                    self.report(s, ins, "layer", "a press is carried out for another layer than the one which is remembered")
            return
        self.put(s, ("undone", c))
        g = [x for x in self.get(s, "got") if x[1] == c and o in (("at", ("a", x[2], ()), "d"), ("at", x[2], "d"))]
        if not g:
            self.report(s, ins, "release", "the action carried out for a release is not the one which was remembered at the press")
            return
        if self.truth(s, g[0][2]) is not True:
            self.report(s, ins, "unheld", "the release of a key which is not held is acted upon")
        if ("free", c) not in s.auto:
            self.report(s, ins, "stuck", "a key is released without being freed for the next press")
        if not (isinstance(dl, tuple) and self.fromentry(s, dl, g[0][2])):
            self.report(s, ins, "layer", "a release is carried out for another layer than the press")

    def fromentry(self, s, dl, e):
        v = canon(dl)
        for (a, w), x in s.mem.items():
            if canon(x) == v and isinstance(a, tuple) and a[0] == "a" and a[2] and a[2][-1] == ("f", "cache_entry", "dl") and (a[1] == e or ("a", a[1], a[2][:-1]) == e):
                return True
        return v[0] == "v" and isinstance(v[1], Inst) and v[1].op == "load" and ModSets(self.mod)._addr(v[1].ops[0])[1][-1:] == [("cache_entry", "dl")]

    def _edge(self, s, b, tgt, t, heap, w):
        for h, ends in self.searches.items():
            if b in ends and tgt not in self.cfg.loops[h] and ("hit",) not in s.auto:
                # the whole cache was looked at: the key is not held, there is nothing to keep in step
                for x in self.get(s, "press"):
                    self.put(s, ("kept", x[1], x[2]))
        Seq._edge(self, s, b, tgt, t, heap, w)

    def on_branch(self, s, t, c, want):
        if self.op is None and ("up",) not in s.auto and self.truth(s, ("v", self.iarg)) is False:
            self.put(s, ("up",))
        if self.searches and isinstance(c, tuple) and c[0] in ("cmp", "not"):
            x, w = (c[1], not want) if c[0] == "not" else (c, want)
            if x[0] == "cmp" and x[1] in ("eq", "ne") and w == (x[1] == "eq"):
                l, r = canon(x[2]), canon(x[3])
                mine = self.codes(s)
                for v, o in ((l, r), (r, l)):
                    if v in mine and isinstance(o, tuple) and o[0] == "v" and isinstance(o[1], Inst) and o[1].op == "load" and ModSets(self.mod)._addr(o[1].ops[0])[1][-1:] == [("cache_entry", "code")]:
                        self.put(s, ("hit",))   # the key is held
        for x in self.get(s, "got"):
            if self.truth(s, x[2]) is False:
                self.put(s, ("nul", x[1]))      # not held
        for x in self.get(s, "press"):
            if self.null(s, x[1]):
                self.put(s, ("kept", x[1], x[2]))

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        for x in self.get(s, "press"):
            if ("kept", x[1], x[2]) not in s.auto:
                self.report(s, t, "nested", "an action is carried out in place of another one without being remembered for the release")
        if self.op is None:
            for x in self.get(s, "set"):
                if ("done", x[1]) not in s.auto and self.truth(s, x[4]) is not True:
                    self.report(s, t, "forgotten", "a key is remembered but its action is not carried out")
            for x in self.get(s, "free"):
                if ("undone", x[1]) not in s.auto:
                    self.report(s, t, "dropped", "a key is freed without undoing its action")


def searches(m, g, cfg):
    """Loops over the whole cache which look for a key and replace its action: header -> blocks where they end without finding it."""
    ms = ModSets(m)
    n = m.sizeof(m.fieldty("keyboard", "cache")) // m.structsize("cache_entry")
    out = {}
    for i in g.insts():
        if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name.startswith("llvm.memcpy") and ms._addr(i.ops[0])[1][-1:] == [("cache_entry", "d")]:
            for h in cfg.loops:
                if i.block not in cfg.loops[h] and not any(p in cfg.loops[h] for p in cfg.preds[i.block]):
                    continue
                for p, init, step in cfg.counted(h):
                    for b, pred, x, off in cfg.bound(h, p):
                        if step == 1 and isinstance(init, Const) and init.v == 0 and isinstance(x, Const) and pred in ("slt", "ult", "ne") and x.v - off >= n:
                            out.setdefault(h, set()).add(b)
    return out


def setup(e, ctx, get, put, d, ev):
    m = ctx.mod
    e.get_fn, e.set_fn, e.desc_fn, e.event_fn = get, put, d, ev
    e.dsize = m.structsize("descriptor")
    e.cfg = CFG(e.fn)
    e.searches = searches(m, e.fn, e.cfg)
    o = ops(m)
    e.swaps = {o.get("OP_SWAP"), o.get("OP_SWAPM")}
    e.layer = o["OP_LAYER"]
    e._pending = None
    e.fails = {v for v in retconsts(put) if v != 0} or {-1}


def retconsts(f):
    out, work, seen = set(), [], set()
    for b in f.blocks:
        t = b.insts[-1] if b.insts else None
        if t is not None and t.op == "ret" and t.ops:
            work.append((t.ops[0], t.ops[0].ty.a))
    while work:
        v, w = work.pop()
        if isinstance(v, Const):
            out.add(v.v - (1 << w) if v.v >> (w - 1) & 1 and v.v > 0 else v.v)
        elif isinstance(v, Inst) and v.op == "phi" and v not in seen:
            seen.add(v)
            work += [(x, w) for x, _ in v.incoming]
    return out


def reaching_set(m, d):
    r = {d}
    ch = True
    while ch:
        ch = False
        for f in m.fns.values():
            if f.file == KFILE and f not in r and any(i.op == "call" and isinstance(i.callee, GRef) and m.fns.get(i.callee.name) in r for i in f.insts()):
                r.add(f)
                ch = True
    return r


def strokes(ctx):
    m = ctx.mod
    get, put = prims(ctx)
    d, ev = descriptor_fn(m), event_fn(m)
    stop = {d, ev, get, put, m.fn("kbd_process_events")}
    touch = {f for f in reaching_set(m, d) | reaching_set(m, get) | reaching_set(m, put) if f not in stop}
    keep = {f for f in touch if f.src in ("activate_layer", "handle_chord", "resolve_chord", "abort_chord")}
    g = inline(m, ev, lambda c, ch: c.file == KFILE and c in touch and c not in keep)
    e = Flow(m, g)
    ints = [a for a in g.args if a.ty.k == "int"]
    e.carg, e.iarg = ints[0], ints[1]
    setup(e, ctx, get, put, d, ev)
    e.run()
    n = sum(1 for i in g.insts() if i.op == "call" and isinstance(i.callee, GRef) and m.fns.get(i.callee.name) is d)
    ctx.need(n, "the engine step never carries out an action")
    ctx.count("dispatches", n)
    e.flush(ctx, "step:")


def action(ctx, item):
    m = ctx.mod
    name, op, pressed = item
    get, put = prims(ctx)
    d, ev = descriptor_fn(m), event_fn(m)
    stop = {d, ev, get, put, m.fn("kbd_process_events")}
    g = inline(m, d, lambda c, ch: c.file == KFILE and c not in stop and not CFG(c).loops)
    e = Flow(m, g)
    de = DescEngine(m, g, ModSets(m), op, pressed)
    e.darg, e.parg = de.roles()
    e.op, e.pressed = op, pressed
    e.carg = [a for a in g.args if a.ty.k == "int"][0]
    setup(e, ctx, get, put, d, ev)
    e.run()
    ctx.count("actions")
    e.flush(ctx, f"{name}:")


def actions(ctx):
    m = ctx.mod
    o = ops(m)
    ctx.pmap(action, [(k, v, p) for k, v in sorted(o.items()) if k != "OP_NULL" for p in (1, 0)])


class Chord(Flow):
    pass


class Keys(Seq):
    """OP_KEYSEQUENCE: pressed -> the key is down, released -> the key is up"""

    def seed(self, s):
        s.env[self.parg] = self.pressed
        s.mem[(("a", ("v", self.darg), (("f", "descriptor", "op"),)), 4)] = self.op

    _mayalias = DescEngine._mayalias

    def on_other(self, s, ins, args, n):
        if self.mod.fns.get(n) is self.key:
            self.events += 1
            c, st = canon(args[1]), self.const(s, args[2])
            for x in self.get(s, "arg"):
                if x[2] == c:
                    self.drop(s, lambda y: y[0] == "key" and y[1] == x[1])
                    self.put(s, ("key", x[1], st))

    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            if isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", self.darg) and ("f", "descriptor", "args") in a[2]:
                self.put(s, ("arg", a[2], canon(s.env[ins])))

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        Seq.on_exit(self, s, t)
        ks = self.get(s, "key")
        if not any(x[2] == self.pressed for x in ks):
            self.report(s, t, "key", "a key bound to a key sequence is not " + ("pressed" if self.pressed else "released"))


def others(ctx):
    """Nothing else in the engine forgets held keys."""
    m = ctx.mod
    get, put = prims(ctx)
    ms = ModSets(m)
    for f in m.fns.values():
        if f.file != KFILE or f is put:
            continue
        for i in f.insts():
            if i.op == "store":
                a = ms._addr(i.ops[1])[1]
                if a[-1:] == [("cache_entry", "code")] and ("keyboard", "cache") in a:
                    ctx.violation("code:" + f.src, "held keys are forgotten or renamed", m.where(i))
            elif i.op == "call" and isinstance(i.callee, GRef) and i.callee.name.startswith(("llvm.memset", "memset")):
                a = ms._addr(i.ops[0])[1]
                if ("keyboard", "cache") in a:
                    ctx.violation("wipe:" + f.src, "held keys are forgotten", m.where(i))
    ctx.count("functions", len([f for f in m.fns.values() if f.file == KFILE]))


def keys(ctx):
    m = ctx.mod
    d = descriptor_fn(m)
    key = ctx.need(key_fn(m), "the engine's key output function is not found")
    seen = []
    for p in (1, 0):
        g = inline(m, d, lambda c, ch: c.file == KFILE and c is not key and c is not d and not CFG(c).loops and c is not event_fn(m))
        e = Keys(m, g)
        de = DescEngine(m, g, ModSets(m), ops(m)["OP_KEYSEQUENCE"], p)
        e.darg, e.parg = de.roles()
        e.op, e.pressed, e.key = ops(m)["OP_KEYSEQUENCE"], p, key
        e.run()
        ctx.need(e.exits, "a key sequence never ends")
        seen.append({x[1] for s, t in e.exits for x in e.get(s, "key")})
        e.flush(ctx, "keysequence:")
    if seen[0] != seen[1]:
        ctx.violation("keysequence:code", "the key released is not the key pressed", m.where(d.blocks[0].insts[0]))


def run(ctx):
    ctx.rule("the cache finds, remembers and frees exactly the key it is given", cache)
    ctx.rule("presses are remembered before, releases taken from the memory and freed", strokes)
    ctx.rule("a press nested in an action is remembered for the release", actions)
    ctx.rule("held keys are forgotten nowhere else", others)
    ctx.rule("a key sequence releases the key it pressed", keys)
