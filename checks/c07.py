"""C07: every layer change is reported, with the right direction. (1) In every engine function that writes a layer's activation count, each
increment or decrement must be followed on every path by exactly one call of the change callback naming that layer, with state 1 or 0; an
assignment (layout switch) by exactly one call naming the layout; no callback without a change. Functions that do only half of it are judged
inlined into their callers. (2) The daemon's callback is simulated: marker, name and length of the message, and that every listener is written to."""
from seq import *

ACT = ("layer_state", "active")


def is_active(addr):
    f = sfields(addr)
    return bool(f) and f[-1][1] == "active" and "layer_state" in [x[1] for x in f[:-1]]


def lidx(addr):
    """Index of the layer_state[] / layers[] element an address denotes."""
    p = addr[2]
    for k, e in enumerate(p):
        if e[0] == "f" and e[2] in ("layer_state", "layers"):
            if k + 1 < len(p) and p[k + 1][0] == "x":
                return canon(p[k + 1][1])
            return 0
    return None


def notify_call(ins):
    if ins.op != "call" or isinstance(ins.callee, GRef):
        return False
    c = ins.callee
    if isinstance(c, Inst) and c.op == "load" and isinstance(c.ops[0], Inst) and c.ops[0].op == "getelementptr":
        return True
    return isinstance(c, (Inst, Arg))


def is_notify(m, ms, ins):
    if ins.op != "call" or not isinstance(ins.callee, Inst) or ins.callee.op != "load":
        return False
    return ms._addr(ins.callee.ops[0])[1][-1:] == [("output", "on_layer_change")]


class Rep(Seq):
    def is_n(self, ins):
        return is_notify(self.mod, self.ms, ins)

    def on_store(self, s, ins, addr, v):
        if not (isinstance(addr, tuple) and addr[0] == "a" and is_active(addr)):
            return
        i = lidx(addr)
        old = s.mem.get((addr, 4))
        d = None
        if isinstance(v, tuple) and v[0] == "+" and abs(v[2]) == 1:
            d = v[2]
        elif isinstance(v, int) and old is not None and self.const(s, old) is not None and False:
            d = v
        if isinstance(v, tuple) and v[0] == "op" and v[1] == "add" and v[2] in (1, 0xffffffff, -1):
            d = 1 if v[2] == 1 else -1
        if d is not None:
            self.put(s, ("chg", i, 1 if d > 0 else 0))
        elif v == 0:
            self.put(s, ("assign0",))
        elif isinstance(v, int):
            self.put(s, ("assign", i))
        else:
            self.put(s, ("chg", i, None))
        self.events += 1

    def on_indirect(self, s, ins, args):
        if not self.is_n(ins):
            return
        self.events += 1
        a = args[1] if len(args) > 1 else None
        i = lidx(a) if isinstance(a, tuple) and a[0] == "a" else None
        if i is None and a is not None:
            i = ("?",)
        st = self.const(s, args[2])
        pend = self.get(s, "chg")
        hit = [x for x in pend if x[1] == i and (x[2] is None or x[2] == st)]
        if hit:
            self.drop(s, lambda x: x == hit[0])
            return
        if any(x[1] == i for x in pend):
            self.report(s, ins, "polarity", "a layer's deactivation is announced as an activation or the other way round")
            self.drop(s, lambda x: x[0] == "chg" and x[1] == i)
            return
        if pend:
            self.report(s, ins, "layer", "the announced layer is not the one that changed")
            self.drop(s, lambda x: x[0] == "chg")
            return
        asg = self.get(s, "assign")
        if st == 1 and not self.get(s, "announced"):
            if asg:
                if asg[0][1] != i:
                    self.report(s, ins, "layout", "the announced layout is not the one that was selected")
            elif not (i == 0 or isinstance(i, tuple) and self.const(s, i) == 0):
                self.report(s, ins, "nochange", "a layer is announced that did not change")
            self.put(s, ("announced",))
            return
        self.report(s, ins, "nochange", "a layer is announced that did not change")

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op != "ret":
            return
        if self.get(s, "chg"):
            self.report(s, t, "silent", "a layer changes without being announced")
        elif (self.get(s, "assign") or self.get(s, "assign0")) and not self.get(s, "announced"):
            self.report(s, t, "silent-layout", "the layout changes without being announced")


def engine(ctx):
    m = ctx.mod
    ms = ModSets(m)
    fns = [f for f in m.fns.values() if f.file == KFILE]

    def direct(f):
        for i in f.insts():
            if i.op == "store":
                fs = ms._addr(i.ops[1])[1]
                if len(fs) >= 2 and fs[-1][1] == "active" and "layer_state" in [x[1] for x in fs]:
                    return True
            if is_notify(m, ms, i):
                return True
        return False

    def creates(f):
        return any(i.op == "store" and any(x[1] == "original_config" for x in ms._addr(i.ops[1])[1]) for i in f.insts())
    cand = [f for f in fns if direct(f) and not creates(f)]
    ctx.need(any(is_notify(m, ms, i) for f in cand for i in f.insts()), "no layer change is ever announced")
    ctx.need(any(i.op == "store" for f in cand for i in f.insts()), "no function changes a layer's activation count")
    half = {}
    done = set()
    for depth in range(5):
        nxt = []
        for f in cand:
            if f.name in done:
                continue
            done.add(f.name)
            g = inline(m, f, lambda c, ch: c.name in half)
            e = Rep(m, g, ms)
            e.run()
            ctx.count("functions")
            ctx.count("events", e.events)
            ctx.count("states", sum(len(x) for x in e.states.values()))
            if e.bad:
                half[f.name] = e
                up = [g2 for g2, i in callers(m, f.name) if g2.file == KFILE]
                if not up or f.name == event_fn(m).name:
                    first = e
                    first.flush(ctx)
                nxt += up
        # callers already judged before their helper was known to be incomplete
        for g2 in nxt:
            done.discard(g2.name)
        cand = nxt
        if not cand:
            break
    for n in half:
        pass
    # functions whose address is taken, or never called, cannot rely on a caller
    for n, e in half.items():
        f = m.fns[n]
        ups = {g.name for g, i in callers(m, n)}
        if ups and all(u in half for u in ups):
            e.flush(ctx)


class Msg(Seq):
    def seed(self, s):
        self.kbd, self.layer, self.state = [("v", a) for a in self.fn.args[:3]]

    def typ(self, s):
        v = s.mem.get((("a", self.layer, (("f", "layer", "type"),)), 4))
        return self.rng(s, v) if v is not None else (-INF, INF, frozenset())

    def call_snprintf(self, s, ins, args):
        fmt = strarg(self.mod, args[2])
        if fmt is None:
            self.report(s, ins, "fmt", "the message format is not constant")
            return
        rest = list(args[3:])
        mark = fmt[:1]
        if fmt.startswith("%c"):
            c = self.const(s, rest.pop(0))
            mark = chr(c % 256) if c is not None else "?"
            fmt = mark + fmt[2:]
        elif fmt.startswith("%s"):
            x = strarg(self.mod, rest.pop(0))
            mark = x if x is not None else "?"
            fmt = mark + fmt[2:]
        if fmt[1:] != "%s\n":
            self.report(s, ins, "shape", f"the change message has the form {fmt!r}")
            return
        if not rest or rest[0] != ("a", self.layer, (("f", "layer", "name"),)):
            self.report(s, ins, "name", "the change message does not carry the name of the layer that changed")
        LT = self.mod.enum("LT_LAYOUT")
        l, h, e = self.typ(s)
        islay = True if l == h == LT else False if (LT < l or LT > h or LT in e) else None
        st = self.truth(s, self.state)
        if mark == "/":
            if islay is not True:
                self.report(s, ins, "marker", "a layer that is not a layout is announced as one")
        elif mark in "+-" and len(mark) == 1:
            if islay is not False:
                self.report(s, ins, "marker", "a layout change is announced as a layer change")
            if st is not (mark == "+"):
                self.report(s, ins, "polarity-msg", "activations and deactivations are announced with the wrong sign")
        else:
            self.report(s, ins, "marker", f"a change is announced with the mark {mark!r}")
        n = self.const(s, args[1])
        need = self.mod.fieldsize("layer", "name") + 2
        if n is not None and n < need:
            self.report(s, ins, "trunc", f"a message of up to {need - 1} characters is cut to {n - 1}")
        self.drop(s, lambda x: x[0] == "msg")
        self.put(s, ("msg", args[0], ("v", ins)))
    call___snprintf_chk = None

    def call_write(self, s, ins, args):
        x = self.get(s, "msg")
        if not x:
            self.report(s, ins, "empty", "something else than the change message is written to a listener")
        else:
            ok = args[1] == x[0][1] and (args[2] == x[0][2] or args[2] in [y[1] for y in self.get(s, "len")])
            if not ok:
                self.report(s, ins, "text", "a listener is not sent the whole change message")
        a = self.val(s, ins.ops[0])
        self.put(s, ("sent",))
    call_send = call_write

    def after_inst(self, s, ins):
        if self.callname(ins) == "strlen":
            x = self.get(s, "msg")
            if x and self.val(s, ins.ops[0]) == x[0][1]:
                self.put(s, ("len", ("v", ins)))

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op == "ret" and ("sent",) not in s.auto:
            n = [v for (a, w), v in s.mem.items() if a[0] == "a" and a[1] == ("g", self.cnt)]
            if not any(self.const(s, v) == 0 for v in n):
                self.report(s, t, "unsent", "a change is not sent to the listeners")


def layer_cb(ctx):
    """The daemon's change callback: stored into output.on_layer_change."""
    m = ctx.mod
    ms = ModSets(m)
    for f in m.fns.values():
        if f.file == "src/daemon.c":
            for i in f.insts():
                if i.op == "store" and ms._addr(i.ops[1])[1][-1:] == [("output", "on_layer_change")] and isinstance(i.ops[0], GRef):
                    return m.fns.get(i.ops[0].name)
    for g in m.globals.values():
        if isinstance(g.init, Agg):
            for e in g.init.elems:
                if isinstance(e, GRef) and e.name in m.fns and m.fns[e.name].file == "src/daemon.c" and len(m.fns[e.name].args) == 3:
                    return m.fns[e.name]
    return ctx.need(m.fn("on_layer_change", "src/daemon.c"), "the daemon's layer change callback is not found")


def listener_globals(ctx):
    """(array, counter) of the registered connections: the int array in daemon.c a connection is stored into, indexed by a global counter."""
    m = ctx.mod
    arr = [g for g in m.globals.values() if g.file == "src/daemon.c" and g.ty.k == "arr" and g.ty.b.k == "int" and g.ty.b.a == 32 and not g.const]
    ctx.need(len(arr) == 1, "the table of listeners is not found")
    ms = ModSets(m)
    cnt = set()
    for f in m.fns.values():
        for i in f.insts():
            if i.op == "store" and ms._addr(i.ops[1])[0].__class__ is GRef and ms._addr(i.ops[1])[0].name == arr[0].name:
                a = i.ops[1]
                for o in a.ops[1:] if isinstance(a, Inst) else ():
                    o = strip(o)
                    st = [o]
                    while st:
                        x = st.pop()
                        if isinstance(x, Inst) and x.op == "load" and isinstance(x.ops[0], GRef):
                            cnt.add(x.ops[0].name)
                        elif isinstance(x, Inst) and x.op in ("add", "sub", "zext", "sext", "trunc", "phi"):
                            st += [y for y in x.ops if isinstance(y, Inst)]
    ctx.need(len(cnt) == 1, "the number of listeners is not found")
    return arr[0].name, cnt.pop()


def message(ctx):
    m = ctx.mod
    cb = ctx.need(layer_cb(ctx), "the daemon's layer change callback is not found")
    arr, cnt = listener_globals(ctx)
    f = inline(m, cb, lambda c, ch: c.file == "src/daemon.c")
    e = Msg(m, f)
    e.cnt = cnt
    e.run()
    e.flush(ctx)
    ctx.need(e.exits, "the callback never returns")
    ctx.need(any(e.callname(i) in ("write", "send") for i in f.insts()), "the callback writes to nobody") if not e.bad else None
    # every listener: the loop around the write
    from c16 import loop_all
    cfg = CFG(f)
    for i in f.insts():
        if e.callname(i) in ("write", "send"):
            hs = cfg.loops_of(i.block)
            if not hs:
                ctx.violation("one", "only one listener is told of a change", m.where(i))
            else:
                coverage(ctx, m, f, cfg, hs[0], i, "fanout")


def coverage(ctx, m, f, cfg, h, i, key):
    """The counted loop around i starts at 0, steps by 1, has no early exit and reaches i in every iteration."""
    ctx.count("fanout_loops")
    ind = cfg.counted(h)
    okx = set()
    for p, init, step in ind:
        bs = cfg.bound(h, p)
        if not bs:
            continue
        okx |= {b for b, *_ in bs}
        if isinstance(init, Const) and init.v != 0 and step == 1:
            ctx.violation(key + "-start", "the first listener is left out", m.where(i))
        for b, pred, x, off in bs:
            if isinstance(x, Inst) and x.op in ("add", "sub") and isinstance(x.ops[1], Const):
                ctx.violation(key + "-bound", "the last listener is left out", m.where(i))
    if ind and okx:
        for b, s in cfg.exits(h):
            if b not in okx and s.insts[-1].op != "unreachable":
                ctx.violation(key + "-break", "the loop over the listeners may stop before the last one", m.where(b.insts[-1]))
        if not all(cfg.dom(i.block, l) for l in cfg.latches[h]):
            ctx.violation(key + "-skip", "some listeners are not told of a change", m.where(i))


def run(ctx):
    ctx.rule("each change of a layer's activation count is announced exactly once, on the right layer, with the right state", engine)
    ctx.rule("announcements carry the right mark and the layer's name and reach every listener", message)
