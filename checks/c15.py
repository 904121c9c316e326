"""C15: nothing refers to a discarded configuration. From the daemon's event handler (everything the daemon itself defines inlined) every
path is followed: once a configuration or an engine has been freed, each place of the daemon which can hold a reference to one (file-level
pointers and the per-device association, found by where such references are stored) is stale until it is overwritten; using a stale
reference, returning with one, or using a freed object is reported. The association of the devices counts as replaced only after a loop
over the whole device table in which every device that is not keyd's own gets a new one. The reference to the current engine is used only
where it is known to exist."""
from seq import *

ASSUMPTIONS = ["keyd's own virtual devices have no configuration associated with them (decided by C16)"]
DF = "src/daemon.c"
DATA = ("device", "data")


def handlers(m):
    """Functions which the daemon hands to the event loop."""
    out = []
    for f in m.fns.values():
        if f.file != DF:
            continue
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "evloop":
                for o in i.ops:
                    if isinstance(o, GRef) and o.name in m.fns:
                        out.append(m.fns[o.name])
    return out


class Refs:
    """Flow-insensitive: which values are references to configurations or engines, and which globals and fields hold them."""

    def __init__(self, m):
        self.m, self.ms = m, ModSets(m)
        self.globals, self.fields = set(), {DATA, ("config_ent", "kbd"), ("config_ent", "next")}
        self.fns = [f for f in m.fns.values() if f.file in (DF, "src/evloop.c", "src/device.c")]
        self.params = set()
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                vals = self.values(f)
                for i in f.insts():
                    if i.op == "store" and i.ops[0] in vals:
                        root, fs = self.ms._addr(i.ops[1])
                        if isinstance(root, GRef) and root.name in m.globals and not fs and root.name not in self.globals:
                            self.globals.add(root.name)
                            ch = True
                        elif fs and fs[-1] not in self.fields:
                            self.fields.add(fs[-1])
                            ch = True
                    if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
                        g = m.fns[i.callee.name]
                        if g in self.fns:
                            for a, v in zip(g.args, i.ops):
                                if v in vals and a not in self.params:
                                    self.params.add(a)
                                    ch = True

    def isref(self, i):
        if i.op == "load":
            root, fs = self.ms._addr(i.ops[0])
            if isinstance(root, GRef) and root.name in self.globals and not fs:
                return True
            return bool(fs) and fs[-1] in self.fields and i.ty.k == "ptr"
        return i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "new_keyboard"

    def values(self, f):
        vals = {a for a in f.args if a in self.params}
        vals |= {i for i in f.insts() if self.isref(i)}
        frees = set()
        ch = True
        while ch:
            ch = False
            for i in f.insts():
                if i in vals or i.ty.k != "ptr":
                    continue
                if i.op == "phi" and any(v in vals for v, _ in i.incoming) or i.op in ("bitcast", "freeze") and i.ops[0] in vals \
                        or i.op == "select" and (i.ops[1] in vals or i.ops[2] in vals) \
                        or i.op == "getelementptr" and i.ops[0] in vals:
                    vals.add(i)
                    ch = True
        # the list entries themselves: what is stored into a place that holds them
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("calloc", "malloc") and i not in vals:
                for j in f.insts():
                    if j.op == "store" and self.ms._addr(j.ops[1])[1][-1:] == [("config_ent", "kbd")] and self.base(j.ops[1]) is i:
                        vals.add(i)
        return vals

    def base(self, v):
        while isinstance(v, Inst) and v.op in ("getelementptr", "bitcast"):
            v = v.ops[0]
        return v


class Use(Seq):
    """tags: ('stale', place) ('out', place, value): loaded before the engine was freed; ('freed', value)"""

    def seed(self, s):
        self.freeing = 0

    def places(self):
        return [("g", g) for g in sorted(self.refs.globals)] + [DATA]

    def place(self, addr):
        """The tracked place which addr is, or None."""
        if not isinstance(addr, tuple) or addr[0] != "a":
            return None
        if addr[1][0] == "g" and addr[1][1] in self.refs.globals and not addr[2]:
            return ("g", addr[1][1])
        if addr[2] and addr[2][-1] == ("f",) + DATA:
            return DATA
        return None

    def root(self, v):
        if isinstance(v, tuple) and v[0] == "a":
            return v[1]
        return v

    def use(self, s, ins, v, how):
        r = self.root(v)
        for x in s.auto:
            if x[0] in ("tainted", "freed") and x[-1] == r:
                if x[0] == "freed":
                    self.report(s, ins, "freed", "a configuration is used after it was freed")
                else:
                    self.report(s, ins, f"use-{name(x[1])}", f"{name(x[1])}, which may refer to a discarded configuration, is used")
                return
        for x in self.get(s, "out"):
            if x[2] == r and x[1] in self.maynull and self.truth(s, r) is not True:
                self.report(s, ins, f"null-{name(x[1])}", f"{name(x[1])} is used where there may be none")

    def freed(self, s, ins, v):
        r = self.root(v)
        for x in self.get(s, "freed"):
            if x[1] == r:
                self.report(s, ins, "double", "a configuration is freed twice")
        self.put(s, ("freed", r))
        if isinstance(r, tuple) and r[0] == "v" and isinstance(r[1], Inst) and r[1].op == "call":
            return          # never put into the list
        for x in self.get(s, "out"):
            self.put(s, ("tainted", x[1], x[2]))
        for p in self.places():
            if ("none", p) in s.auto or p == ("g", self.list) and any(x[1] == p and x[2] != r for x in self.get(s, "holds")):
                continue
            self.put(s, ("stale", p))

    def on_inst(self, s, ins):
        r = Seq.on_inst(self, s, ins)
        if ins.op == "load":
            self.use(s, ins, self.val(s, ins.ops[0]), "read")
        return r

    def after_inst(self, s, ins):
        if ins.op == "load" and ins.ty.k == "ptr":
            p = self.place(self.val(s, ins.ops[0]))
            if p:
                self.events += 1
                v = self.root(s.env[ins])
                if not isinstance(v, int):
                    if ("stale", p) in s.auto:
                        self.put(s, ("tainted", p, v))
                    elif p == DATA or p[1] != self.list:
                        self.put(s, ("out", p, v))

    def on_store(self, s, ins, addr, v):
        self.use(s, ins, addr, "written")
        p = self.place(addr)
        if not isinstance(v, int) and ins.ops[0].ty.k == "ptr":
            r = self.root(v)
            for x in self.get(s, "tainted") + self.get(s, "freed"):
                if x[-1] == r:
                    self.report(s, ins, "kept", "a reference to a discarded configuration is kept")
        if p is None:
            return
        self.events += 1
        if p == DATA:
            self.put(s, ("set",))
        else:
            self.drop(s, lambda x: x in (("stale", p), ("none", p)) or x[:2] == ("holds", p))
            if not isinstance(v, int):
                self.put(s, ("holds", p, self.root(v)))
            if self.const(s, v) == 0:
                self.put(s, ("none", p))

    def on_other(self, s, ins, args, n):
        if n == "free":
            self.events += 1
            v = ins.ops[0]
            if v in self.vals:
                self.freed(s, ins, args[0])
            return
        if n.startswith("llvm."):
            return
        for a, o in zip(args, ins.ops):
            if o.ty.k == "ptr":
                self.use(s, ins, a, "passed on")

    def on_branch(self, s, t, c, want):
        # a test of is_virtual: keyd's own devices have no association
        for x in self.virt:
            if x in s.env and self.truth(s, s.env[x]) is True:
                self.put(s, ("virtual",))

    def _edge(self, s, b, tgt, t, heap, w):
        body = self.cfg.loops.get(tgt)
        if body and b in body:
            self.drop(s, lambda x: x[0] == "holds")
            self.drop(s, lambda x: x[0] in ("freed", "tainted", "out") and isinstance(x[-1], tuple) and (x[-1][0] == "stale" or x[-1][0] == "v" and isinstance(x[-1][1], Inst) and x[-1][1].block in body))
        for h in self.loops:
            body = self.cfg.loops[h]
            if tgt is h and b not in body:
                self.drop(s, lambda x: x in (("set",), ("virtual",)) or x[0] == "missed" and x[1] == id(h))
            elif tgt is h:
                if ("set",) not in s.auto and ("virtual",) not in s.auto:
                    self.put(s, ("missed", id(h)))
                self.drop(s, lambda x: x in (("set",), ("virtual",)))
            elif b in body and tgt not in body and self.loops[h] is not None:
                if b in self.loops[h]:
                    if ("missed", id(h)) not in s.auto:
                        self.drop(s, lambda x: x == ("stale", DATA))
        Seq._edge(self, s, b, tgt, t, heap, w)

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        for x in self.get(s, "stale"):
            self.report(s, t, f"left-{name(x[1])}", f"{name(x[1])} may still refer to a discarded configuration afterwards")


def name(p):
    return p[1] if p[0] == "g" else "a device's association"


def tableloops(m, cfg, ms):
    """Loops over the whole device table: header -> blocks by which they end regularly."""
    out = {}
    for h in cfg.loops:
        for p, init, step in cfg.counted(h):
            if step != 1 or not (isinstance(init, Const) and init.v == 0):
                continue
            for b, pred, x, off in cfg.bound(h, p):
                if pred in ("ult", "slt", "ne") and off == 0 and isinstance(x, Inst) and x.op == "load":
                    root, fs = ms._addr(x.ops[0])
                    if isinstance(root, GRef) and root.name == "device_table_sz":
                        out.setdefault(h, set()).add(b)
    return out


def discarded(ctx):
    m = ctx.mod
    refs = Refs(m)
    hs = ctx.need(handlers(m), "the daemon gives the event loop no handler")
    ctx.sample("places: " + ", ".join(sorted(refs.globals)) + ", device.data")
    ctx.count("places", len(refs.globals) + 1)
    for f in hs:
        g = inline(m, f, lambda c, ch: c.file == DF)
        e = Use(m, g)
        e.refs = refs
        e.vals = refs.values(g)
        frees = [i for i in g.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "free" and i.ops[0] in e.vals]
        ctx.need(frees, "no configuration is ever freed on a reload")
        ctx.count("frees", len(frees))
        e.cfg = CFG(g)
        e.loops = tableloops(m, e.cfg, e.ms)
        e.virt = [i for i in g.insts() if i.op == "load" and e.ms._addr(i.ops[0])[1][-1:] == [("device", "is_virtual")]]
        # the list of configurations: the global which is walked to free them
        lists = {gn for gn in refs.globals for i in g.insts() if i.op == "load" and isinstance(i.ops[0], GRef) and i.ops[0].name == gn
                 and any(j.op == "load" and e.ms._addr(j.ops[0])[1][-1:] == [("config_ent", "next")] for j in g.insts()) and gn != "active_kbd"}
        lists = {gn for gn in refs.globals if walked(m, refs, g, gn)}
        e.list = next(iter(lists), None)
        e.maynull = {("g", gn) for gn in refs.globals if gn != e.list and any(
            i.op == "store" and isinstance(i.ops[1], GRef) and i.ops[1].name == gn and not isinstance(i.ops[0], (Inst, Arg)) for i in g.insts())} | {DATA}
        e.run()
        e.flush(ctx)


def walked(m, refs, g, gn):
    """gn is the head of the list: a phi mixes its value with a load of config_ent.next"""
    ms = refs.ms
    for p in g.insts():
        if p.op == "phi":
            vs = [strip(v) for v, _ in p.incoming]
            if any(isinstance(v, Inst) and v.op == "load" and isinstance(v.ops[0], GRef) and v.ops[0].name == gn for v in vs) and \
                    any(isinstance(v, Inst) and v.op == "load" and ms._addr(v.ops[0])[1][-1:] == [("config_ent", "next")] for v in vs):
                return True
    return False


def run(ctx):
    ctx.rule("after a configuration is freed no reference to it is used or left behind", discarded)
