"""C29: listeners. From accept() to registration (all functions handling the connection inlined): a send timeout is in force before anything is
written to a new listener and before it is registered; it is registered only after the full state was written (the layout line naming the layout
in use, then one line for every active layer that is no layout), and not after a failed write. The fan-out is simulated per listener: it is kept
exactly if the whole message was taken, otherwise closed and removed; the table is rewritten with exactly those kept."""
from seq import *
from c07 import layer_cb, listener_globals
from c04 import conn, root, SINK

ASSUMPTIONS = ["SO_SNDTIMEO bounds writes to a socket, as documented"]
SOL, SNDTIMEO = 1, 21


def field(addr, name):
    return isinstance(addr, tuple) and addr[0] == "a" and addr[2] and addr[2][-1][0] == "f" and addr[2][-1][2] == name


def index_in(addr, arr):
    p = addr[2]
    for k, e in enumerate(p):
        if e[0] == "f" and e[2] == arr:
            if k + 1 < len(p) and p[k + 1][0] == "x":
                return canon(p[k + 1][1])
            return 0
    return None


class Reg(Seq):
    def seed(self, s):
        m = self.mod
        ev = ("v", self.fn.args[0])
        s.mem[(("a", ev, (("f", "event", "type"),)), 4)] = m.enum("EV_FD_ACTIVITY")
        self.LT = m.enum("LT_LAYOUT")

    def call_accept(self, s, ins, args):
        self.drop(s, lambda x: True)
        self.put(s, ("con", ("v", ins)))
    call_accept4 = call_accept

    def is_con(self, s, v):
        return ("con", v) in s.auto

    def after_inst(self, s, ins):
        n = self.callname(ins)
        if n in ("recv", "read", "xread"):
            a = self.val(s, ins.ops[1])
            if self.is_con(s, self.val(s, ins.ops[0])) and isinstance(a, tuple):
                r, p = (a[1], a[2]) if a[0] == "a" else (a, ())
                s.mem[(("a", r, p + (("f", "ipc_message", "type"),)), 4)] = self.mod.enum("IPC_LAYER_LISTEN")
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            if field(a, "active") and index_in(a, "layer_state") is not None:
                self.put(s, ("act", index_in(a, "layer_state"), s.env[ins]))
            elif field(a, "type") and index_in(a, "layers") is not None:
                self.put(s, ("type", index_in(a, "layers"), s.env[ins]))
            elif isinstance(a, tuple) and a[0] == "a" and a[1] == ("g", self.active) and not a[2]:
                self.put(s, ("kbd", s.env[ins]))

    def call_setsockopt(self, s, ins, args):
        if not self.is_con(s, args[0]) or args[1] != SOL or args[2] != SNDTIMEO:
            return
        a = args[3]
        v = []
        if isinstance(a, tuple):
            r, p = (a[1], a[2]) if a[0] == "a" else (a, ())
            for f in ("tv_sec", "tv_usec"):
                x = peek(self, s, ("a", r, p + (("f", "timeval", f),)), 8)
                v.append(self.const(s, x) if x is not None else None)
        self.drop(s, lambda x: x[0] == "timeo")
        if v and None not in v:
            if v == [0, 0]:
                return
            self.put(s, ("timeo", v[0] * 1000000 + v[1]))

    def before_write(self, s, ins):
        t = self.get(s, "timeo")
        if not t:
            self.report(s, ins, "untimed", "something is written to a new listener before its writes are time-limited")

    def layer_state(self, s, i):
        """(active?, layout?) of layer i on this path: True/False/None each."""
        act = lay = None
        for x in self.get(s, "act"):
            if x[1] == i:
                act = self.truth(s, x[2])
        for x in self.get(s, "type"):
            if x[1] == i:
                l, h, e = self.rng(s, x[2])
                lay = True if l == h == self.LT else False if (self.LT < l or self.LT > h or self.LT in e) else None
        return act, lay

    def call_dprintf(self, s, ins, args):
        if not self.is_con(s, args[0]):
            return
        self.before_write(s, ins)
        fmt = strarg(self.mod, args[1])
        i = index_in(args[2], "layers") if len(args) > 2 and isinstance(args[2], tuple) and field(args[2], "name") else None
        if fmt == "/%s\n":
            if self.get(s, "layer"):
                self.report(s, ins, "order", "the layout line comes after the active layers")
            if i is None:
                self.report(s, ins, "layout-name", "the layout line does not name a layer")
            elif i == 0 or self.const(s, i) == 0:
                if not self.get(s, "scanned"):
                    self.report(s, ins, "layout-main", "the layout line names main without looking for an active layout")
            else:
                a, l = self.layer_state(s, i)
                if a is False or l is False or (l is None and any(x[1] == i for x in self.get(s, "type"))):
                    self.report(s, ins, "layout-wrong", "the layout line names a layer that is not the active layout")
            self.put(s, ("layout",))
        elif fmt == "+%s\n":
            a, l = self.layer_state(s, i)
            if a is not True or l is not False:
                self.report(s, ins, "layer-wrong", "the snapshot names a layer that is not active (or a layout)")
            if not self.get(s, "layout"):
                self.report(s, ins, "order", "active layers are sent before the layout")
            self.put(s, ("layer",), ("now", i))
        else:
            self.report(s, ins, "text", f"a new listener is sent {fmt!r}")
        self.put(s, ("wres", ("v", ins)))

    def call_write(self, s, ins, args):
        if not self.is_con(s, args[0]):
            return
        self.before_write(s, ins)
        self.put(s, ("told",))
        self.put(s, ("wres", ("v", ins)))
    call_send = call_write

    def call_close(self, s, ins, args):
        if self.is_con(s, args[0]):
            self.put(s, ("closed",))

    def on_branch(self, s, t, c, want):
        for x in self.get(s, "con"):
            if self.rng(s, x[1])[1] < 0:
                self.drop(s, lambda y: y == x)
        for x in self.get(s, "wres"):
            if self.rng(s, x[1])[1] < 0:
                self.put(s, ("failed",))
        n = s.mem.get((("a", ("g", self.cnt), ()), 8)) or s.mem.get((("a", ("g", self.cnt), ()), 4))
        if n is not None and self.get(s, "con") and self.rng(s, n)[0] >= self.cap:
            self.put(s, ("full",))

    def on_store(self, s, ins, addr, v):
        if self.is_con(s, v) and isinstance(addr, tuple) and addr[0] == "a" and addr[1] == ("g", self.arr):
            self.events += 1
            if not self.get(s, "timeo"):
                self.report(s, ins, "register-untimed", "a listener is registered without its writes being time-limited")
            elif max(x[1] for x in self.get(s, "timeo")) > 200000:
                self.report(s, ins, "register-long", "a slow listener may hold up the daemon for long")
            if self.get(s, "failed"):
                self.report(s, ins, "register-failed", "a listener that could not be sent the state is registered nevertheless")
            kbd = [self.truth(s, x[1]) for x in self.get(s, "kbd")]
            if not self.get(s, "layout") and not any(k is False for k in kbd):
                self.report(s, ins, "register-early", "a listener is registered before it was sent the state")
            elif self.get(s, "layout") and not self.get(s, "layersdone"):
                self.report(s, ins, "register-nolayers", "a listener is registered before it was sent the active layers")
            self.put(s, ("registered",))
        elif isinstance(addr, tuple) and addr[0] == "a" and addr[1] == ("g", self.cnt) and not addr[2]:
            old = s.mem.get((addr, 8)) or s.mem.get((addr, 4))
            if old is None or v != add(old, 1):
                self.report(s, ins, "count", "the number of listeners does not grow by one")
            self.put(s, ("counted",))

    # the snapshot loops
    def _branch(self, s, t, b, heap):
        for h, kind in self.loops_at.get(b, ()):
            if kind == "layers":
                # end of an iteration of the loop that sends the active layers
                ids = {x[1] for x in self.get(s, "act")} | {x[1] for x in self.get(s, "type")}
                cur = self.cur(s, h)
                if cur is not None and ("now", cur) not in s.auto:
                    a, l = self.layer_state(s, cur)
                    if a is not False and l is not True:
                        self.report(s, t, "layer-missing", "an active layer is left out of the state sent to a new listener")
                self.drop(s, lambda x: x[0] == "now" or x[0] in ("act", "type"))
            else:
                cur = self.cur(s, h)
                if cur is not None:
                    a, l = self.layer_state(s, cur)
                    if a is not False and l is not False:
                        self.report(s, t, "layout-missed", "an active layout is overlooked when the state is sent to a new listener")
                self.drop(s, lambda x: x[0] in ("act", "type"))
        Seq._branch(self, s, t, b, heap)

    def cur(self, s, h):
        v = s.env.get(self.ind[h])
        return canon(v) if v is not None else None

    def _edge(self, s, b, tgt, t, heap, w):
        for h, kind in self.exits_at.get((b, tgt), ()):
            if kind == "layers":
                self.put(s, ("layersdone",))
            else:
                self.put(s, ("scanned",))
        Seq._edge(self, s, b, tgt, t, heap, w)

    def extra_key(self, s, block):
        out = []
        for p in self.ptrphis:
            if p in s.env and self.livein[block] & self._bit[p]:
                out.append((p.uid, repr(s.env[p])))
        return tuple(out)

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op == "ret" and self.get(s, "con"):
            r, c = self.get(s, "registered"), self.get(s, "counted")
            if bool(r) != bool(c):
                self.report(s, t, "uncounted", "a registered listener is not counted")
            if not r and not self.get(s, "closed"):
                self.report(s, t, "lost", "a connection that does not become a listener is not closed")
            if not r and self.get(s, "full") and not self.get(s, "told"):
                self.report(s, t, "untold", "a listener beyond the limit is not told so")


def registration(ctx):
    m = ctx.mod
    f0, fl = root(ctx)
    f = conn(m, f0, fl, lambda c: all(x.startswith("llvm.") for x in libcalls(m, c)))
    arr, cnt = listener_globals(ctx)
    e = Reg(m, f)
    e.arr, e.cnt = arr, cnt
    e.cap = m.globals[arr].ty.a
    act = [g.name for g in m.globals.values() if g.file == "src/daemon.c" and g.ty.k == "ptr" and not g.const and
           any(i.op == "load" and isinstance(i.ops[0], GRef) and i.ops[0].name == g.name and i.block in {x.block for x in f.insts()} for i in f.insts())]
    ms = ModSets(m)
    # the keyboard whose state is sent: the global pointer from which layer_state is reached
    users = set()
    for i in f.insts():
        if i.op == "getelementptr":
            r, fs = ms._addr(i)
            if fs and any(x[1] in ("layer_state", "config") for x in fs) and isinstance(r, Inst) and r.op == "load" and isinstance(r.ops[0], GRef):
                users.add(r.ops[0].name)
    reg = [g for g in users if g in act]
    ctx.need(reg, "the keyboard whose state is sent is not found")
    e.active = "active_kbd" if "active_kbd" in reg else reg[0]
    cfg = CFG(f)
    e.loops_at, e.exits_at, e.ind = {}, {}, {}
    seen = []
    for i in f.insts():
        if e.callname(i) == "dprintf":
            hs = cfg.loops_of(i.block)
            if hs:
                seen.append((hs[0], "layers", i))
    ctx.need(seen, "a new listener is never sent the active layers") if not seen else None
    lay = {h for h, k, i in seen}
    for h in cfg.loops:
        if h in lay or any(h in cfg.loops[x] for x in lay):
            continue
        ld = [i for b in cfg.loops[h] for i in b.insts if i.op == "load" and ms._addr(i.ops[0])[1][-1:] and ms._addr(i.ops[0])[1][-1][1] == "active"
              and any(x[1] == "layer_state" for x in ms._addr(i.ops[0])[1])]
        if ld:
            seen.append((h, "layout", ld[0]))
    for h, kind, i in seen:
        ctx.count("snapshot_loops")
        ind = [(p, init, st) for p, init, st in cfg.counted(h) if cfg.bound(h, p) and st == 1]
        if not ind:
            ctx.undecide(m.where(i), "loop form not recognised")
            continue
        p, init, st = ind[0]
        e.ind[h] = p
        if isinstance(init, Const) and init.v > 1:
            ctx.violation(f"snapshot-start-{kind}", "the first layers are left out of the state sent to a new listener", m.where(i))
        okb = {b for b, *_ in cfg.bound(h, p)}
        for b, pred, x, off in cfg.bound(h, p):
            if isinstance(x, Inst) and x.op in ("add", "sub") and isinstance(x.ops[1], Const):
                ctx.violation(f"snapshot-bound-{kind}", "the last layers are left out of the state sent to a new listener", m.where(i))
        for l in cfg.latches[h]:
            e.loops_at.setdefault(l, []).append((h, kind))
        for b, s in cfg.exits(h):
            if b in okb:
                e.exits_at.setdefault((b, s), []).append((h, kind))
    # pointers chosen among several layers
    e.ptrphis = [i for i in f.insts() if i.op == "phi" and i.ty.k == "ptr"]
    e.run()
    e.flush(ctx)
    ctx.need(any(e.get(s, "registered") for s, t in e.exits) or e.bad, "no connection ever becomes a listener")


class Fan(Seq):
    def seed(self, s):
        self.hist = []

    def lidx(self, addr):
        if isinstance(addr, tuple) and addr[0] == "a" and addr[1] == ("g", self.arr):
            return canon(addr[2][0][1]) if addr[2] else 0
        return None

    def after_inst(self, s, ins):
        if ins.op == "load":
            i = self.lidx(self.val(s, ins.ops[0]))
            if i is not None:
                self.put(s, ("fd", s.env[ins], i))

    def fd(self, s, v):
        return any(x[1] == v for x in self.get(s, "fd"))

    def call_snprintf(self, s, ins, args):
        self.drop(s, lambda x: x[0] == "len")
        self.put(s, ("len", ("v", ins)))

    def call_write(self, s, ins, args):
        if self.fd(s, args[0]):
            self.drop(s, lambda x: x[0] in ("w", "out", "kept", "closed"))
            self.put(s, ("w", ("v", ins), args[0], args[2]))
            self.events += 1
    call_send = call_write

    def outcome(self, s):
        """'all', 'not' or None: was the whole message taken?"""
        for x in self.get(s, "out"):
            return x[1]
        for x in self.get(s, "w"):
            d = self.decide(s, "eq", x[1], x[3])
            if d is not None:
                return "all" if d else "not"
            if self.rng(s, x[1])[1] < 0:
                return "not"
            return None
        return None

    def keep(self, s, ins):
        if self.get(s, "closed"):
            self.report(s, ins, "keep-closed", "a listener that was closed stays registered")
        o = self.outcome(s)
        if o != "all":
            self.report(s, ins, "keep-slow", "a listener that did not take the whole message stays registered")
        self.put(s, ("kept",))

    def on_store(self, s, ins, addr, v):
        if self.fd(s, v):
            if isinstance(addr, tuple) and addr[0] == "a" and addr[1][0] in ("al", "g") and (addr[1][0] == "al" and addr[1] != addr or addr[1] == ("g", self.arr)):
                self.keep(s, ins)
                self.put(s, ("keptin", addr[1]))
        elif isinstance(addr, tuple) and addr[0] == "a" and addr[1] == ("g", self.arr):
            self.put(s, ("copied",))
        elif isinstance(addr, tuple) and addr[0] == "a" and addr[1] == ("g", self.cnt) and not addr[2]:
            self.put(s, ("count", v))

    def call_close(self, s, ins, args):
        if not self.fd(s, args[0]):
            return
        if self.get(s, "closed"):
            self.report(s, ins, "close-twice", "a listener is closed twice")
        if self.get(s, "kept"):
            self.report(s, ins, "close-kept", "a listener that stays registered is closed")
        o = self.outcome(s)
        if o == "all":
            self.report(s, ins, "close-good", "a listener that took the whole message is dropped")
        self.put(s, ("closed",), ("anyclosed",))

    def copy(self, s, ins, dst, src, n):
        if isinstance(dst, tuple) and dst[0] == "a" and dst[1] == ("g", self.arr):
            self.put(s, ("copied",))
            c = [x[1] for x in self.get(s, "count")]
            base = None
            if isinstance(n, tuple) and n[0] == "op" and n[1] == "mul":
                base = n[3] if n[2] == 4 else n[2] if n[3] == 4 else "?"
            elif isinstance(n, tuple) and n[0] == "op" and n[1] == "shl":
                base = n[2] if n[3] == 2 else "?"
            elif isinstance(n, int):
                base = None if n >= self.cap * 4 else n // 4
                if not c or not isinstance(c[0], int):
                    base = None if n % 4 == 0 else "?"
            else:
                base = "?"
            if base == "?" or base is not None and c and (c[0] != base if isinstance(base, int) and isinstance(c[0], int) else isinstance(base, tuple) != isinstance(c[0], tuple)):
                self.report(s, ins, "copy-short", "only part of the remaining listeners is kept")

    def on_inst(self, s, ins):
        n = self.callname(ins)
        if n and (n.startswith("llvm.memcpy") or n.startswith("llvm.memmove")):
            self.copy(s, ins, self.val(s, ins.ops[0]), self.val(s, ins.ops[1]), self.val(s, ins.ops[2]))
        return Seq.on_inst(self, s, ins)

    def _branch(self, s, t, b, heap):
        if b in self.latch and self.get(s, "w"):
            self.judge(s, t)
            self.drop(s, lambda x: x[0] in ("w", "out", "kept", "closed", "fd"))
        Seq._branch(self, s, t, b, heap)

    def judge(self, s, t):
        if not self.get(s, "kept") and not self.get(s, "closed"):
            self.report(s, t, "neither", "a listener is neither kept nor closed after a message")

    def on_branch(self, s, t, c, want):
        o = self.outcome(s)
        if o:
            self.put(s, ("out", o))
        # once a listener was closed fewer were kept than there were
        if t.block in self.body or not self.get(s, "anyclosed"):
            return
        while isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("eq", "ne") and want == (c[1] == "eq"):
            n = [v for (a, w), v in s.mem.items() if a == ("a", ("g", self.cnt), ())]
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if a in n and b not in [s.env.get(p) for p in self.inds]:
                    return False

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op != "ret" or not self.get(s, "anyclosed"):
            return
        if not self.get(s, "count"):
            self.report(s, t, "stale", "a listener that was closed stays registered")
        elif ("keptin", ("g", self.arr)) not in s.auto and not self.get(s, "copied") and any(x[0] == "keptin" for x in s.auto):
            self.report(s, t, "uncopied", "the table of listeners is not rewritten after one was dropped")


def fanout(ctx):
    m = ctx.mod
    cb = ctx.need(layer_cb(ctx), "the daemon's layer change callback is not found")
    arr, cnt = listener_globals(ctx)
    f = inline(m, cb, lambda c, ch: c.file == "src/daemon.c")
    cfg = CFG(f)
    e = Fan(m, f)
    e.arr, e.cnt, e.cap = arr, cnt, m.globals[arr].ty.a
    e.latch, e.body, e.inds = set(), set(), []
    for i in f.insts():
        if e.callname(i) in ("write", "send"):
            hs = cfg.loops_of(i.block)
            ctx.need(hs, "the fan-out is not a loop over the listeners")
            e.latch |= set(cfg.latches[hs[0]])
            e.body |= set(cfg.loops[hs[0]])
            e.inds += [p for p, _, _ in cfg.counted(hs[0]) if cfg.bound(hs[0], p)]
            okb = {b for p, _, _ in cfg.counted(hs[0]) for b, *_ in cfg.bound(hs[0], p)}
            for b, s in cfg.exits(hs[0]):
                if okb and b not in okb and s.insts[-1].op != "unreachable":
                    ctx.violation("break", "one listener's failure keeps the message from the others", m.where(b.insts[-1]))
    e.run()
    e.flush(ctx)
    ctx.need(any(e.get(s, "anyclosed") for s, t in e.exits) or e.bad, "listeners are never dropped")


def run(ctx):
    ctx.rule("a new listener gets the whole state, time-limited, before it is registered", registration)
    ctx.rule("each listener is kept exactly if it took the whole message", fanout)
