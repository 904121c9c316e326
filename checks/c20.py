"""C20: key codes from device to output. Reading an event, remapping dispatch and output are simulated for every single key code: (1) for every
kernel key code the event read from the device (press, release, autorepeat) yields either nothing or a key event with the same press state whose
code is the same one, or - for codes the program cannot represent - another named key that is no mere truncation; (2) the event loop hands every event
read to the handler once, with its device, and the handler passes code and state on unchanged; (3) sending key k writes exactly one EV_KEY event with
k's evdev code and state, then a SYN report, to the pointer for buttons and to the keyboard otherwise; out(in(c)) = c for all codes the output can
represent; (4) each code written is declared, with its event type, on the device it is written to."""
from seq import *
import c08

ASSUMPTIONS = ["the kernel delivers key codes defined in linux/input-event-codes.h with value 0, 1 or 2"]
IE = "input_event"
BUTTONS = {"BTN_LEFT": "leftmouse", "BTN_RIGHT": "rightmouse", "BTN_MIDDLE": "middlemouse", "BTN_SIDE": "mouse1", "BTN_EXTRA": "mouse2",
           "BTN_BACK": "mouseback", "BTN_FORWARD": "mouseforward"}


def follow(e, f, m):
    """Take every loop iteration by iteration where the values are concrete."""
    cfg = CFG(f)
    out = list(e.unrolled)
    for h in cfg.loops:
        for p in h.insts:
            if p.op == "phi" and p in e.inductive:
                e.inductive.discard(p)
                out.append(p)
    e.unrolled = tuple(out)
    return cfg


class Read(Seq):
    """device_read_event() for one event read from the device."""

    def setup(self, typ, code, value):
        self.evt, self.got = (typ, code, value), []
        return self

    def call_read(self, s, ins, args):
        if self.get(s, "read"):
            return False
        self.put(s, ("read",))

    def after_inst(self, s, ins):
        if self.callname(ins) in ("read", "xread"):
            a = self.val(s, ins.ops[1])
            r, p = (a[1], a[2]) if a[0] == "a" else (a, ())
            for f, w, v in zip(("type", "code", "value"), (2, 2, 4), self.evt):
                s.mem[(("a", r, p + (("f", IE, f),)), w)] = v
            s.env[ins] = self.mod.structsize(IE)

    def field(self, s, p, f, w):
        r, q = (p[1], p[2]) if p[0] == "a" else (p, ())
        return peek(self, s, ("a", r, q + (("f", "device_event", f),)), w)

    def on_exit(self, s, t):
        if t.op != "ret" or not self.get(s, "read"):
            return
        v = self.val(s, t.ops[0])
        if self.const(s, v) == 0:
            self.got.append((None, t, trace_str(s.trace)))
            return
        if not isinstance(v, tuple):
            self.got.append(("?", t, ""))
            return
        d = {}
        for f, w in (("type", 4), ("code", 1), ("pressed", 1), ("x", 4), ("y", 4)):
            x = self.field(s, v, f, w)
            c = self.const(s, x) if x is not None else None
            d[f] = c if c is not None else canon(x) if x is not None else None
        self.got.append((d, t, trace_str(s.trace)))


def reader(ctx):
    m = ctx.mod
    f = ctx.need(m.fn("device_read_event"), "device_read_event not found")
    g = inline(m, f, lambda c, ch: c.file == f.file)
    ctx.need(any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "read" for i in g.insts()), "device_read_event does not read")
    return f, g


def readone(m, f, ms, typ, code, value):
    e = Read(m, f, ms).setup(typ, code, value)
    follow(e, f, m)
    e.run()
    return e


def name(m, k):
    """The name of key code k in the key table, or None."""
    if not hasattr(m, "_keynames"):
        g = m.globals.get("keycode_table")
        if g is None or not g.const or not isinstance(g.init, Agg):
            raise IRError("keycode_table is no constant table")
        m._keynames = {}
        for i, el in enumerate(g.init.elems):
            v = el.elems[0] if isinstance(el, Agg) else None
            b = m.cstr(v) if isinstance(v, (GRef, CExpr)) else None
            m._keynames[i] = b.decode("latin1") if b else None
    return m._keynames.get(k)


class Send(Seq):
    """One call of the key output function: what is written where."""

    def setup(self, args):
        self.args, self.got, self.fin, self.loads = args, [], [], {}
        return self

    def seed(self, s):
        for a, v in zip(self.fn.args, self.args):
            if v is not None:
                s.env[a] = v

    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            if isinstance(a, tuple) and a[0] == "a" and a[2] and a[2][-1][0] == "f" and a[2][-1][1] == "vkbd":
                self.loads[s.env[ins]] = a[2][-1][2]

    def out(self, s, ins, args):
        fd, p = args[0], args[1]
        r, q = (p[1], p[2]) if isinstance(p, tuple) and p[0] == "a" else (p, ())
        ev = []
        for f, w in (("type", 2), ("code", 2), ("value", 4)):
            x = peek(self, s, ("a", r, q + (("f", IE, f),)), w)
            c = self.const(s, x) if x is not None else None
            ev.append(c if c is not None else canon(x) if x is not None else None)
        s.auto = frozenset([("w", next(iter(s.auto))[1] + ((self.loads.get(fd, "?"), *ev),))])
    call_xwrite = out

    def call_write(self, s, ins, args):
        if self.const(s, args[2]) == self.mod.structsize(IE):
            self.out(s, ins, args)

    def initial(self):
        return frozenset([("w", ())])

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((next(iter(s.auto))[1], t, trace_str(s.trace)))
            self.fin.append(s)


def sender(ctx):
    """The daemon's key output function, everything down to the writes inlined."""
    m = ctx.mod
    fs = c08.outfn(ctx)
    ctx.need(len(fs) == 1, f"daemon key output function not found: {fs}")
    f = fs[0]
    return f, inline(m, f, lambda c, ch: c.src != "xwrite" and c.file not in ("src/log.c",))


def sendone(m, f, ms, *args):
    e = Send(m, f, ms).setup(args)
    follow(e, f, m)
    e.run()
    return e


class Declare(Seq):
    """What is declared on the virtual devices by the time they are created."""

    def call_ioctl(self, s, ins, args):
        m = self.mod
        req = self.const(s, args[1])
        req = req & 0xffffffff if req is not None else None
        fd = args[0]
        if req in self.REQ:
            v = self.const(s, args[2])
            if v is None:
                self.report(s, ins, "declare-unknown", "what is declared cannot be determined")
                return
            if ("made", fd) in s.auto:
                self.report(s, ins, "declare-late", "a capability is declared after the device has been created")
            self.put(s, ("bit", fd, self.REQ[req], v))
        elif req == self.CREATE:
            self.put(s, ("made", fd))

    def on_store(self, s, ins, addr, v):
        if isinstance(addr, tuple) and addr[0] == "a" and addr[2] and addr[2][-1][0] == "f" and addr[2][-1][1] == "vkbd":
            self.put(s, ("is", addr[2][-1][2], v))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.exits.append((s, t))


def declared(ctx):
    """{vkbd field: {EVBIT: set, KEYBIT: set, RELBIT: set, ABSBIT: set}} certainly declared when vkbd_init() returns."""
    m = ctx.mod
    if hasattr(m, "_declared"):
        return m._declared
    f = ctx.need(m.fn("vkbd_init", "src/vkbd/uinput.c"), "vkbd_init not found")
    g = inline(m, f, lambda c, ch: c.file == f.file)
    e = Declare(m, g, ModSets(m))
    nr = lambda n, sz=4: (1 << 30) | (sz << 16) | (ord("U") << 8) | n
    e.REQ = {nr(100): "EV", nr(101): "KEY", nr(102): "REL", nr(103): "ABS"}
    e.CREATE = (ord("U") << 8) | 1
    follow(e, g, m)
    e.run()
    ctx.need(e.exits, "vkbd_init never returns")
    res = None
    for s, t in e.exits:
        d = {}
        for x in e.get(s, "is"):
            b = d.setdefault(x[1], {})
            for y in e.get(s, "bit"):
                if y[1] == x[2] and ("made", x[2]) in s.auto:
                    b.setdefault(y[2], set()).add(y[3])
        if res is None:
            res = d
        else:
            for k in list(res):
                for kk in list(res[k]):
                    res[k][kk] &= d.get(k, {}).get(kk, set())
    ctx.need({"fd", "pfd"} <= set(res), f"the descriptors of the virtual devices were not found: {sorted(res)}")
    e.flush(ctx)
    for k in res:
        ctx.count("declared_" + k, sum(len(v) for v in res[k].values()))
    m._declared = res
    return res


def kernel(m):
    """{code: name} of the keys and buttons the kernel can report."""
    mx = m.macro("KEY_MAX")
    out = {}
    for p in ("KEY_", "BTN_"):
        for k, v in m.macros(p).items():
            if 0 < v < mx and k not in ("KEY_MAX", "KEY_CNT") and not (k in ("KEY_MIN_INTERESTING",) and v in out):
                out.setdefault(v, k)
    return out


def inmap(ctx, item):
    """What reading this key code yields."""
    m = ctx.mod
    f, g = reader(ctx)
    ms = ModSets(m)
    KEY = m.enum("DEV_KEY")
    res = []
    for c in item:
        ks = []
        for v in (0, 1, 2):
            e = readone(m, g, ms, 1, c, v)
            ctx.count("events", e.events)
            got = e.got
            ctx.need(got, f"no path reads key code {c}")
            for d, t, tr in got:
                w = f"key code {c}"
                if d == "?" or (d is not None and (not isinstance(d["type"], int) or not isinstance(d["code"], int) or not isinstance(d["pressed"], int))):
                    ctx.undecide(w, "what it becomes is not known")
                    continue
                if v == 2:
                    if d is not None:
                        ctx.violation(f"repeat:{c}", f"autorepeat of {w} is handed on as an event", m.where(t), tr)
                    continue
                if d is None:
                    ks.append((None, t, tr))
                elif d["type"] != KEY:
                    ctx.violation(f"kind:{c}", f"{w} is handed on as something else than a key event", m.where(t), tr)
                elif bool(d["pressed"]) != bool(v) or d["pressed"] not in (0, 1):
                    ctx.violation(f"state:{c}", f"{w}: {'press' if v else 'release'} is handed on with state {d['pressed']}", m.where(t), tr)
                else:
                    ks.append((d["code"], t, tr))
        if len({k for k, _, _ in ks}) > 1:
            ctx.violation(f"split:{c}", f"key code {c}: press and release become different keys ({sorted(str(k) for k, _, _ in ks)})", m.where(ks[0][1]), ks[0][2])
        elif ks:
            res.append((c, ks[0][0], m.where(ks[0][1])))
    return res


def outmap(ctx, item):
    m = ctx.mod
    f, g = sender(ctx)
    ms = ModSets(m)
    res = []
    for k in item:
        for st in (0, 1):
            e = sendone(m, g, ms, k, st)
            ctx.count("events", e.events)
            ctx.need(e.got, f"no path sends key {k}")
            for ws, t, tr in e.got:
                res.append((k, st, ws, m.where(t), tr))
    return res


def codes(ctx):
    m = ctx.mod
    KN = kernel(m)
    ctx.need(len(KN) > 300, "kernel key codes not found")
    cs = sorted(KN)
    n = 24
    ins = {c: (k, w) for r in ctx.pmap(inmap, [cs[i::n] for i in range(n)]) for c, k, w in r or ()}
    outs = {}
    for r in ctx.pmap(outmap, [list(range(1, 256))[i::n] for i in range(n)]):
        for k, st, ws, w, tr in r or ():
            outs.setdefault((k, st), []).append((ws, w, tr))
    dec = declared(ctx)
    out = {}            # key -> (device, code)
    SYN = 0
    for (k, st), l in sorted(outs.items()):
        nm = name(m, k)
        for ws, w, tr in l:
            what = f"key {k} ({nm})"
            if len(ws) == 0 or ws[0][1] == 2:
                if 0 < k < 256 and ws and nm and "scroll" in nm or nm is None:
                    continue
                if nm and nm.startswith("scroll") and nm != "scrolllock":
                    continue
            if nm is None:
                continue
            if len(ws) != 2 or ws[0][1] != 1 or tuple(ws[1][1:]) != (0, SYN, 0) or ws[0][0] != ws[1][0]:
                ctx.violation(f"send:{k}", f"sending {what} writes {list(ws)} instead of one key event and a report", w, tr)
                continue
            dev, _, c, v = ws[0]
            if not isinstance(c, int):
                ctx.undecide(what, "the code written is not known")
                continue
            if v != st:
                ctx.violation(f"sendstate:{k}", f"{what}: {'press' if st else 'release'} is written with value {v}", w, tr)
            btn = 0x100 <= c < 0x160
            if dev != ("pfd" if btn else "fd"):
                ctx.violation(f"device:{k}", f"{what} is written to the virtual {'keyboard' if btn else 'pointer'}" if dev != "?" else f"{what} is written elsewhere", w, tr)
            b = dec.get(dev, {})
            if c not in b.get("KEY", ()) or 1 not in b.get("EV", ()):
                ctx.violation(f"undeclared:{k}", f"{what}: code {c} is never declared on the virtual device it is written to", w, tr)
            if k in out and out[k][1] != c:
                ctx.violation(f"sendsplit:{k}", f"{what}: press and release are written with different codes", w, tr)
            out[k] = (dev, c)
            if c != k and (c < 256 or KN.get(c) is None):
                ctx.violation(f"sendcode:{k}", f"{what} is written as code {c}, an unrelated key", w, tr)
            ctx.count("keys_sent")
    for c, (k, w) in sorted(ins.items()):
        what = f"{KN[c]} ({c})"
        ctx.count("codes_read")
        if c < 256:
            if k == c:
                if (k, 1) in outs and out.get(k, (0, None))[1] != c and name(m, k) is not None:
                    ctx.violation(f"alias:{KN[c]}", f"{what} of a device is taken for the key {name(m, k)}", w, "")
            elif out.get(c, (0, None))[1] == c:
                ctx.violation(f"changed:{KN[c]}", f"{what} of a device becomes {'nothing' if k is None else name(m, k)}", w, "")
            elif k is not None and name(m, k) is None:
                ctx.violation(f"nameless:{KN[c]}", f"{what} of a device becomes key {k}, which does not exist", w, "")
            continue
        if k is not None:
            if name(m, k) is None:
                ctx.violation(f"nameless:{KN[c]}", f"{what} of a device becomes key {k}, which does not exist", w, "")
            elif k == c & 255:
                ctx.violation(f"truncated:{KN[c]}", f"{what} of a device becomes the unrelated key {name(m, k)} (its code cut to 8 bits)", w, "")
        b = BUTTONS.get(KN[c]) or BUTTONS.get(next((n for n, v in m.macros("BTN_").items() if v == c and n in BUTTONS), None))
        if b is not None and (k is None or name(m, k) != b):
            ctx.violation(f"button:{KN[c]}", f"{what} of a device becomes {'nothing' if k is None else name(m, k)} instead of {b}", w, "")
        if k is not None and (b is not None or KN[c] in ("KEY_ZOOM", "KEY_VOICECOMMAND")) and out.get(k, (0, c))[1] != c:
            ctx.violation(f"lost:{KN[c]}", f"{what} of a device becomes {name(m, k)}, which is written as code {out[k][1]} instead", w, "")
    for k, (dev, c) in sorted(out.items()):
        if c != k and ins.get(c, (None,))[0] != k:
            x = ins.get(c, (None,))[0]
            ctx.violation(f"roundtrip:{k}", f"key {name(m, k)} is written as {KN.get(c)}, which is read as {'nothing' if x is None else name(m, x)}", ins.get(c, (0, ""))[1] or "", "")
    ctx.sample("BTN_SIDE -> %s -> %s" % (name(m, ins[0x113][0]) if ins.get(0x113, (None,))[0] else None, out.get(ins.get(0x113, (0,))[0])))


class Loop(Seq):
    """evloop(): each event read is handled once, with its device."""

    def call_device_read_event(self, s, ins, args):
        if self.get(s, "pend"):
            x = self.get(s, "pend")[0]
            if not (isinstance(x[1], tuple) and self.rng(s, x[1])[1] == 0):
                self.report(s, ins, "lost", "an event is read before the previous one has been handled")
        self.drop(s, lambda x: x[0] in ("pend", "done"))
        self.put(s, ("pend", ("v", ins), args[0]))

    def call_poll(self, s, ins, args):
        for x in self.get(s, "pend"):
            if not self.rng(s, x[1])[1] == 0:
                self.report(s, ins, "lost", "an event read from a device is not handled")
        self.drop(s, lambda x: x[0] in ("pend", "done"))

    def on_branch(self, s, t, c, want):
        for x in self.get(s, "pend"):
            if self.rng(s, x[1])[1] == 0:
                self.drop(s, lambda y: y == x)

    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            for x in self.get(s, "pend"):
                if isinstance(a, tuple) and a[0] == "a" and a[1] == x[1] and a[2][-1:] == (("f", "device_event", "type"),):
                    self.put(s, ("type", s.env[ins]))

    def on_indirect(self, s, ins, args):
        if len(args) != 1 or not isinstance(args[0], tuple):
            return
        r, q = (args[0][1], args[0][2]) if args[0][0] == "a" else (args[0], ())
        g = {f: peek(self, s, ("a", r, q + (("f", "event", f),)), w) for f, w in (("type", 4), ("dev", 8), ("devev", 8))}
        ty = self.const(s, g["type"]) if g["type"] is not None else None
        for x in self.get(s, "pend"):
            removed = any(self.const(s, y[1]) == self.REMOVED for y in self.get(s, "type")) or ty == self.DEVREM
            self.seen.add("removed" if removed else "event")
            if removed:
                pass
            elif ty != self.DEVEV:
                self.report(s, ins, "kind", "an event read from a device is handled as something else")
            elif g["devev"] != x[1]:
                self.report(s, ins, "event", "the handler is not given the event just read")
            elif g["dev"] != x[2]:
                self.report(s, ins, "dev", "the handler is given an event of one device together with another device")
        if not self.get(s, "pend"):
            if ty == self.DEVEV:
                self.report(s, ins, "twice", "an event read from a device is handled twice")
        self.drop(s, lambda x: x[0] in ("pend", "type"))


def loop(ctx):
    m = ctx.mod
    f = ctx.need(m.fn("evloop"), "evloop not found")
    g = inline(m, f, lambda c, ch: c.file not in ("src/device.c", "src/daemon.c", "src/log.c", "src/keyboard.c"))
    e = Loop(m, g)
    e.seen = set()
    e.DEVEV, e.DEVREM, e.REMOVED = m.enum("EV_DEV_EVENT"), m.enum("EV_DEV_REMOVE"), m.enum("DEV_REMOVED")
    e.run()
    ctx.need("event" in e.seen, "no event read is handled")
    e.flush(ctx, "loop-")


class Hand(Seq):
    """The daemon's handler for one device event of a managed device."""

    def setup(self, typ, **v):
        self.typ, self.v = typ, v
        self.DEVEV = self.mod.enum("EV_DEV_EVENT")
        self.devev = ("v", Sym("devev", 64))
        self.dev = ("v", Sym("dev", 64))
        self.kbd = ("v", Sym("kbd", 64))
        self.got = []
        return self

    def seed(self, s):
        ev = ("v", self.fn.args[0])
        st = lambda root, sn, f, w, v: s.mem.__setitem__((("a", root, (("f", sn, f),)), w), v)
        st(ev, "event", "type", 4, self.DEVEV)
        st(ev, "event", "dev", 8, self.dev)
        st(ev, "event", "devev", 8, self.devev)
        st(self.dev, "device", "data", 8, self.kbd)
        for x in (self.devev, self.dev, self.kbd):
            s.facts[x] = (1, INF, frozenset())
        st(self.devev, "device_event", "type", 4, self.typ)
        for f, w in (("code", 1), ("pressed", 1), ("x", 4), ("y", 4)):
            if f in self.v:
                st(self.devev, "device_event", f, w, self.v[f])

    def initial(self):
        return frozenset([("o", ())])

    def note(self, s, *x):
        o = next(iter(s.auto))[1]
        s.auto = frozenset([("o", o + (x,) if len(o) < 12 else o)])

    def num(self, s, v):
        if v is None:
            return None
        c = self.const(s, v)
        return c if c is not None else canon(v)

    def call_kbd_process_events(self, s, ins, args):
        n = self.const(s, args[2])
        r, q = (args[1][1], args[1][2]) if args[1][0] == "a" else (args[1], ())
        out = []
        for i in range(n if n is not None and n < 8 else 1):
            qq = q
            if i:
                if q and q[-1][0] == "x":
                    qq = q[:-1] + (("x", i),)
                else:
                    qq = q + (("x", i),)
            g = [self.num(s, peek(self, s, ("a", r, qq + (("f", "key_event", f),)), w)) for f, w in (("code", 1), ("pressed", 1))]
            out.append(tuple(g))
        self.note(s, "keys", args[0], n, tuple(out))

    def mouse(self, s, ins, args):
        self.note(s, self.callname(ins), *[self.num(s, a) for a in args[1:]])
    call_vkbd_mouse_move = call_vkbd_mouse_scroll = call_vkbd_mouse_move_abs = call_vkbd_send_key = mouse

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((next(iter(s.auto))[1], s, t))


OUTF = ("vkbd_mouse_move", "vkbd_mouse_scroll", "vkbd_mouse_move_abs", "vkbd_send_key")


def handler(ctx):
    m = ctx.mod
    for f, i in callers(m, "evloop"):
        if i.ops and isinstance(i.ops[0], GRef) and i.ops[0].name in m.fns:
            f = m.fns[i.ops[0].name]
            stop = {"kbd_process_events", *OUTF}
            return f, inline(m, f, lambda c, ch: c.src not in stop and bool(stop & closure(m, c)))
    ctx.need(False, "the event handler was not found")


def dispatch(ctx):
    m = ctx.mod
    f, g = handler(ctx)
    e = Hand(m, g)
    code, pressed = ("v", Sym("code", 8)), ("v", Sym("pressed", 8))
    e.setup(m.enum("DEV_KEY"), code=code, pressed=pressed)
    e.run()
    ctx.need(e.got, "the handler never returns")
    for o, s, t in e.got:
        o = [x for x in o]
        if len(o) == 1 and o[0][0] == "keys" and o[0][1] == e.kbd and o[0][2] == 1 and o[0][3] == ((code, pressed),):
            continue
        ctx.violation("dispatch", f"a key event of a managed device is passed on as {[x[0:1] + x[2:] for x in o]}", m.where(t), trace_str(s.trace))
    ctx.count("events", e.events)


def run(ctx):
    ctx.rule("every kernel key code is read, translated and written without becoming an unrelated key, on a device that declares it", codes)
    ctx.rule("the event loop handles each event read once, together with its device", loop)
    ctx.rule("the handler passes key code and state to the engine unchanged", dispatch)
