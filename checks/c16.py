"""C16: device ownership. The function that decides about a device (with grabbing and releasing inlined) is simulated: on every path
the automaton records EVIOCGRAB requests, their outcome, the draining of queued input and what becomes of device.data/device.grabbed. A grab needs a
device that is not keyd's own; data points to a configuration's engine exactly when the device is held; a device without match ends released.
device_init is simulated with the vendor/product ids keyd's own virtual devices are created with. The event handler is simulated
for a device without engine: none of its events may be remapped or re-emitted."""
from seq import *
from cfg import CFG, strip

GRAB = 0x40044590
ASSUMPTIONS = ["EVIOCGRAB, EVIOCGKEY and EVIOCGID behave as documented by Linux"]


def df(dev, f):
    return ("a", dev, (("f", "device", f),))


class Own(Seq):
    def __init__(self, mod, fn, ms, dev):
        self.dev = dev
        Seq.__init__(self, mod, fn, ms)

    def call_ioctl(self, s, ins, args):
        if args[1] == GRAB:
            w = args[2]
            if isinstance(w, tuple):
                w = self.const(s, w)
            if w == 1:
                v = s.mem.get((df(self.dev, "is_virtual"), 1))
                if v is None or self.truth(s, v) is not False:
                    self.report(s, ins, "grab-virtual", "a device that may be one of keyd's own is grabbed")
                self.drop(s, lambda x: x == "drained" or x[0] == "rd")
                self.put(s, ("grab", ("v", ins)))
                if "gkey" not in s.auto:
                    self.report(s, ins, "neutral", "the device is grabbed without first looking at which keys are down")
            elif w == 0:
                self.put(s, ("ungrab", ("v", ins)))
            else:
                self.report(s, ins, "grab-arg", "EVIOCGRAB with an unknown argument")
        elif isinstance(args[1], int) and args[1] & 0xffff == 0x4518:
            self.put(s, "gkey")

    def call_read(self, s, ins, args):
        self.drop(s, lambda x: x[0] == "rd")
        if self.get(s, "grab"):
            self.put(s, ("rd", ("v", ins)))

    def on_branch(self, s, t, c, want):
        for x in self.get(s, "rd"):
            if self.rng(s, x[1])[1] <= 0:
                self.put(s, "drained")

    def on_store(self, s, ins, addr, v):
        if addr == df(self.dev, "data"):
            self.put(s, "dataset")
            ok = v == 0 or self.const(s, v) == 0
            self.drop(s, lambda x: x[0] == "eng")
            if not ok:
                self.put(s, ("eng", v))
        return None

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op == "ret":
            self.judge(s, t)

    def judge(self, s, t):
        virt = s.mem.get((df(self.dev, "is_virtual"), 1))
        isvirt = self.truth(s, virt) if virt is not None else None
        g = s.mem.get((df(self.dev, "grabbed"), 1))
        gk = self.truth(s, g) if g is not None else None
        grabs = self.get(s, "grab")
        won = [x for x in grabs if self.rng(s, x[1])[0] >= 0]
        lost = [x for x in grabs if self.rng(s, x[1])[1] < 0]
        ungrab = self.get(s, "ungrab")
        eng = self.get(s, "eng")
        if eng:
            if isvirt is not False:
                self.report(s, t, "data-virtual", "one of keyd's own devices is associated with a configuration")
            if lost or not (won or gk is True):
                self.report(s, t, "data-nograb", "a device is associated with a configuration although it was not taken over")
            if ungrab and not won:
                self.report(s, t, "data-ungrab", "a device is associated with a configuration but given back")
        else:
            if won:
                self.report(s, t, "grab-nomatch", "a device is taken over although no configuration was associated with it")
            if isvirt is False and not ungrab and gk is not False:
                self.report(s, t, "keep", "a device no configuration claims (any more) stays grabbed")
        if won:
            if "drained" not in s.auto:
                self.report(s, t, "drain", "input queued before the grab is not discarded")
            if gk is not True and eng:
                self.report(s, t, "grabbed-unset", "a device that was taken over is not remembered as grabbed")
        for x in ungrab:
            r = self.rng(s, x[1])
            if r[0] == 0 == r[1] and gk is not False or r[0] <= 0 <= r[1] and 0 not in r[2] and gk is True:
                self.report(s, t, "ungrab-flag", "a device that was given back is still remembered as grabbed")
        if lost and not won and gk is not False:
            self.report(s, t, "grabbed-lost", "a device that could not be taken over is remembered as grabbed")
        if isvirt is not True and "dataset" not in s.auto:
            self.report(s, t, "stale", "the device's previous association is left in place")


def manage_fn(m):
    f = m.fn("manage_device")
    if f is None:
        c = [f for f in m.fns.values() if f.file == "src/daemon.c" and len(f.args) == 1 and f.args[0].ty.k == "ptr" and "ioctl" in libcalls(m, f)
             and len({g.name for g, _ in callers(m, f.src)}) >= 2]
        f = c[0] if len(c) == 1 else None
    return f


def stores_data(m, ms, c):
    return ("device", "data") in ms.of(c)[0]


def ownership(ctx):
    m = ctx.mod
    ms = ModSets(m)
    root = ctx.need(manage_fn(m), "no function decides about devices")
    f = inline(m, root, lambda c, ch: "ioctl" in libcalls(m, c) or stores_data(m, ms, c))
    dev = next(("v", a) for a in f.args if a.ty.k == "ptr")
    e = Own(m, f, ms, dev)
    e.run()
    e.flush(ctx)
    ctx.count("exit_states", len(e.exits))
    ctx.need(any(x.op == "call" and isinstance(x.callee, GRef) and x.callee.name == "ioctl" for x in f.insts()), "devices are never grabbed")
    ctx.need(any(e.get(s, "eng") for s, t in e.exits), "no device is ever associated with a configuration")
    ctx.need(any(e.get(s, "ungrab") for s, t in e.exits), "no path gives a device back") if not e.bad else None
    neutral(ctx, m, f)


def neutral(ctx, m, f):
    """The wait for all keys to be released encloses EVIOCGKEY and ends only on a zero count or an error."""
    cfg = CFG(f)
    for b in cfg.order:
        for i in b.insts:
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "ioctl" and isinstance(i.ops[1], Const) and i.ops[1].v & 0xffff == 0x4518:
                ctx.count("neutral_waits")
                buf = ModSets(m)._addr(i.ops[2])[0]
                size = (i.ops[1].v >> 16) & 0x3fff
                kmax = 0x2ff
                if size * 8 < kmax:
                    ctx.violation("neutral-size", "only part of the device's key state is looked at before grabbing", m.where(i))
                hs = cfg.loops_of(b)
                if not hs:
                    ctx.violation("neutral-loop", "the device is grabbed without waiting for its keys to be released", m.where(i))
                    continue
                h = hs[-1]
                body = cfg.loops[h]
                dep = dependents(f, body, buf)
                err = dependents(f, body, i)
                for x, y in cfg.exits(h):
                    t = x.insts[-1]
                    c = strip(t.ops[0]) if t.ops else None
                    if c in dep:
                        k = strip(c)
                        if isinstance(k, Inst) and k.op == "icmp" and k.pred in ("sgt", "sge", "ugt", "uge", "slt", "sle", "ult", "ule") and isinstance(k.ops[1], Const):
                            v = k.ops[1].v
                            stay = t.targets[0] in body
                            n = [z for z in range(0, 0x300) if {"sgt": z > v, "sge": z >= v, "ugt": z > v, "uge": z >= v, "slt": z < v, "sle": z <= v, "ult": z < v, "ule": z <= v}[k.pred] != stay]
                            if n not in ([0], []):
                                ctx.violation("neutral-count", "the device is grabbed while a key may still be down", m.where(t))
                        elif isinstance(k, Inst) and k.op == "icmp" and isinstance(k.ops[1], Const) and k.ops[1].v != 0:
                            ctx.violation("neutral-count", "the device is grabbed while a key may still be down", m.where(t))
                        continue
                    if c in err:
                        continue
                    if reaches_call(y, "ioctl", GRAB):
                        ctx.violation("neutral-exit", "the wait for released keys can end while keys are still down", m.where(t))
                # the bits are all looked at
                for h2 in cfg.loops:
                    if h2 is h or h2 not in body:
                        continue
                    for p, init, step in cfg.counted(h2):
                        for bb, pred, xx, off in cfg.bound(h2, p):
                            if isinstance(xx, Const) and step == 1:
                                last = xx.v - off + (1 if pred in ("sle", "ule") else 0)
                                if uses_buf(cfg.loops[h2], buf, m) and last < kmax and last * 8 < kmax and last < size:
                                    ctx.violation("neutral-bits", f"only the first {last} keys are looked at before grabbing", m.where(bb.insts[-1]))
                                elif uses_buf(cfg.loops[h2], buf, m) and size <= last < 0x2ff - 1 and last > size:
                                    ctx.violation("neutral-bits", f"only the first {last} keys are looked at before grabbing", m.where(bb.insts[-1]))
                                if isinstance(init, Const) and init.v > 1 and uses_buf(cfg.loops[h2], buf, m):
                                    ctx.violation("neutral-bits", f"the first {init.v} keys are not looked at before grabbing", m.where(bb.insts[-1]))
                        if step not in (1, -1) and uses_buf(cfg.loops[h2], buf, m):
                            ctx.violation("neutral-bits", "not all keys are looked at before grabbing", m.where(i))


def uses_buf(body, buf, m):
    ms = ModSets(m)
    return any(i.op == "load" and ms._addr(i.ops[0])[0] is buf for b in body for i in b.insts)


def dependents(f, body, seed):
    """Values computed (data or control dependence inside body) from a memory object or instruction."""
    dep = {seed} if isinstance(seed, Inst) and seed.op == "call" else set()
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for i in b.insts:
                if i in dep:
                    continue
                hit = False
                if i.op == "load" or i.op == "getelementptr":
                    o = i.ops[0]
                    hit = o is seed or o in dep or any(isinstance(x, Inst) and x in dep for x in i.ops)
                elif i.op == "phi":
                    hit = any(isinstance(v, Inst) and v in dep for v, _ in i.incoming)
                    for v, q in i.incoming:
                        t = q.insts[-1]
                        for r in [q] + q.preds:
                            tt = r.insts[-1]
                            if tt.op in ("br", "switch") and tt.ops and isinstance(tt.ops[0], Inst) and tt.ops[0] in dep:
                                hit = True
                elif i.op not in ("call", "alloca"):
                    hit = any(isinstance(o, Inst) and o in dep for o in i.ops)
                elif i.op == "call":
                    hit = any(isinstance(o, Inst) and (o in dep or o is seed) for o in i.ops) and i.ty.k == "int" and not (isinstance(i.callee, GRef) and i.callee.name in ("ioctl",))
                if hit:
                    dep.add(i)
                    ch = True
    return dep


def reaches_call(b, name, req):
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for i in x.insts:
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == name and isinstance(i.ops[1], Const) and i.ops[1].v == req:
                return True
        work += x.succs
    return False


def virtual(ctx):
    m = ctx.mod
    ids = set()

    class Udev(Seq):
        def on_store(self, s, ins, addr, v):
            f = sfields(addr)
            if ("uinput_user_dev", "id") in f and f[-1][1] in ("vendor", "product"):
                self.drop(s, lambda x: x[0] == f[-1][1] and x[1] == addr[1])
                self.put(s, (f[-1][1], addr[1], v))

        def call_write(self, s, ins, args):
            a = args[1]
            if isinstance(a, tuple) and a[0] == "a":
                ve = [x[2] for x in self.get(s, "vendor") if x[1] == a[1]]
                pr = [x[2] for x in self.get(s, "product") if x[1] == a[1]]
                if ve or pr:
                    ids.add((ve[0] if ve else 0, pr[0] if pr else 0, ins))
        call_xwrite = call_write
    for f in m.fns.values():
        if f.file == "src/vkbd/uinput.c" and any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "open" for i in f.insts()):
            e = Udev(m, inline(m, f, lambda c, ch: c.file == "src/vkbd/uinput.c"))
            e.run()
    if not ids:
        for f in m.fns.values():
            if f.file == "src/vkbd/uinput.c":
                Udev(m, inline(m, f, lambda c, ch: c.file == "src/vkbd/uinput.c")).run()
    ctx.need(ids, "no virtual device is created")
    root = ctx.need(m.fn("device_init"), "device_init not found")
    f = inline(m, root, lambda c, ch: c.file == "src/device.c")
    dev = [("v", a) for a in f.args if a.ty.k == "ptr"][-1]

    class Init(Seq):
        vp = None

        def after_inst(self, s, ins):
            if self.callname(ins) == "ioctl" and isinstance(ins.ops[1], Const) and ins.ops[1].v & 0xffff == 0x4502:
                a = self.val(s, ins.ops[2])
                for fld, v in zip(("vendor", "product"), self.vp):
                    if v is not None:
                        s.mem[(("a", a[1], a[2] + (("f", "input_id", fld),)), 2)] = v
                self.put(s, "id")

        def call_open(self, s, ins, args):
            self.put(s, ("open", ("v", ins)))

        def on_exit(self, s, t):
            if t.op != "ret" or not self.is0(s, self.val(s, t.ops[0])):
                return
            self.exits.append((s, t))
            v = s.mem.get((df(dev, "is_virtual"), 1))
            tr = self.truth(s, v) if v is not None else None
            own = self.own
            if own and tr is not True:
                self.report(s, t, f"vendor-{self.vp[1]:x}", f"keyd's own virtual device {self.vp[0]:04x}:{self.vp[1]:04x} is not recognised as such and would be grabbed")
            if not own and tr is not False:
                self.report(s, t, "vendor-other", "a device of another vendor is taken for one of keyd's own")
            for fld in ("data", "grabbed"):
                x = s.mem.get((df(dev, fld), 8 if fld == "data" else 1))
                if x is None or self.const(s, x) != 0:
                    self.report(s, t, "init-" + fld, f"a new device starts with stale {fld}")
    for ve, pr, ins in ids:
        ctx.need(isinstance(ve, int) and isinstance(pr, int), "the ids of a virtual device are not constant")
        ctx.count("virtual_devices")
        e = Init(m, f)
        e.vp, e.own = (ve & 0xffff, pr & 0xffff), True
        e.run()
        e.flush(ctx)
        ctx.need(e.exits, "device_init never succeeds")
    ve = {x[0] & 0xffff for x in ids}
    for x in sorted({0x46d, 0} | {v ^ (1 << k) for v in ve for k in range(16)} - ve):
        e = Init(m, f)
        e.vp, e.own = (x, next(iter(ids))[1] & 0xffff), False
        e.run()
        e.flush(ctx)


def handler(ctx):
    m = ctx.mod
    root = ctx.need(m.fn("event_handler", "src/daemon.c"), "event_handler not found")
    ms = ModSets(m)
    outs = {"kbd_process_events", "vkbd_send_key", "vkbd_mouse_move", "vkbd_mouse_scroll", "vkbd_mouse_move_abs"}
    f = inline(m, root, lambda c, ch: c.file == "src/daemon.c" and "accept" not in libcalls(m, c) and c.src not in ("handle_client", "manage_device", "reload", "load_configs"))
    evarg = ("v", f.args[0])

    class H(Seq):
        def seed(self, s):
            s.mem[(("a", evarg, (("f", "event", "type"),)), 4)] = m.enum("EV_DEV_EVENT")
            d = self.dev = ("v", "dev")
            s.mem[(("a", evarg, (("f", "event", "dev"),)), 8)] = d
            s.mem[(df(d, "data"), 8)] = 0
            dv = ("v", "devev")
            s.mem[(("a", evarg, (("f", "event", "devev"),)), 8)] = dv
            s.facts[dv] = (1, INF, frozenset())
            s.facts[d] = (1, INF, frozenset())

        def call_kbd_process_events(self, s, ins, args):
            a = args[1]
            code = peek(self, s, ("a", a[1], a[2] + (("f", "key_event", "code"),)), 1) if isinstance(a, tuple) and a[0] == "a" else None
            c = self.const(s, code) if code is not None else None
            if c is None or c % 256 != m.enum("KEYD_EXTERNAL_MOUSE_BUTTON"):
                self.report(s, ins, "remap", "an event of a device that was not taken over is remapped")
            self.put(s, "seen")

        def emit(self, s, ins, args):
            self.report(s, ins, "emit", "an event of a device that was not taken over is emitted again")
        call_vkbd_send_key = call_vkbd_mouse_move = call_vkbd_mouse_scroll = call_vkbd_mouse_move_abs = emit
    e = H(m, f, ms)
    e.run()
    e.flush(ctx)
    ctx.need(e.exits, "event_handler never returns")
    ctx.need(any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "kbd_process_events" for i in f.insts()), "event_handler never remaps")


def everyone(ctx):
    """Reload and start-up decide about every device."""
    m = ctx.mod
    root = manage_fn(m)
    live = 0
    for g, i in callers(m, root.src):
        cfg = CFG(g)
        hs = cfg.loops_of(i.block)
        live += 1
        if hs:
            loop_all(ctx, m, g, cfg, hs[0], i, "manage")
    rl = ctx.need(m.fn("reload", "src/daemon.c"), "reload not found")
    if rl is not None:
        f = inline(m, rl, lambda c, ch: c.file == "src/daemon.c" and c is not root)
        calls = [i for i in f.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == root.name]
        cfg = CFG(f)
        if not calls:
            ctx.violation("reload", "a reload does not decide about the devices again", f"{rl.file}:{rl.line}")
        for i in calls:
            hs = cfg.loops_of(i.block)
            if not hs:
                ctx.violation("reload-one", "a reload decides about one device only", m.where(i))
            else:
                loop_all(ctx, m, f, cfg, hs[0], i, "reload")
    ctx.need(live >= 1, "no caller decides about devices")


def loop_all(ctx, m, g, cfg, h, i, key):
    ctx.count("device_loops")
    ind = cfg.counted(h)
    ok = False
    for p, init, step in ind:
        bs = cfg.bound(h, p)
        if not bs:
            continue
        ok = True
        if isinstance(init, Const) and init.v != 0 and step == 1:
            ctx.violation(key + "-start", f"the first {init.v} devices are skipped", m.where(i))
        okx = {b for b, *_ in bs}
        for b, s in cfg.exits(h):
            if b not in okx and s.insts[-1].op != "unreachable":
                ctx.violation(key + "-break", "the loop over the devices may stop before the last one", m.where(b.insts[-1]))
    body = cfg.loops[h]
    # every iteration reaches the call: the call's block dominates the latches
    if ind and not all(cfg.dom(i.block, l) for l in cfg.latches[h]):
        conds = [b for b in body if len(b.succs) > 1 and b is not h and not cfg.dom(i.block, b)]
        if conds and key == "reload":
            ctx.violation(key + "-skip", "some devices are not reconsidered", m.where(i))


def run(ctx):
    ctx.rule("a device is held exactly when a configuration claims it; keyd's own never are; input is settled first", ownership)
    ctx.rule("keyd's own devices are recognised by the ids they are created with", virtual)
    ctx.rule("events of devices that are not held are neither remapped nor emitted", handler)
    ctx.rule("every device is decided about on reload", everyone)
