"""C17: panic sequence. evloop() with its local helpers inlined is analysed as a transfer function on the variables it keeps between
events: from every tracker valuation reachable from the initial one, for every class of event (key events of the three panic
keys, of representative other keys on both sides of every constant the code compares with, LED, motion, absolute and wheel events carrying any
code), the abstract path from device_read_event() must end in a call that never returns exactly when the event is a key event after
which all three keys are down, and must otherwise reach the handler. No store to a tracker may happen on any other path."""
from seq import *

ASSUMPTIONS = ["device_read_event() reports the key transitions of the device (C20)", "the handler does not block (C03)"]


class Step(Engine):
    """before -> (device_read_event) -> after -> (handler) -> post; the states at device_read_event are kept and resumed per event."""

    def __init__(self, mod, fn, ms, tracked):
        self.tracked, self.starts = tracked, []
        self.out, self.outside, self.regional, self.loaded = set(), set(), set(), set()
        Engine.__init__(self, mod, fn, ms)

    def initial(self):
        return "before"

    def cell(self, a):
        return isinstance(a, tuple) and a[0] == "a" and a[1][0] == "g" and a[1][1] in self.tracked

    def valuation(self, s):
        out = {}
        for (a, w), v in s.mem.items():
            if (a, w) in self.loaded:
                c = self.const(s, v)
                if c is None:
                    return None
                if c:
                    out[(a, w)] = c
        return tuple(sorted(out.items(), key=repr))

    def on_inst(self, s, ins):
        n = ins.callee.name if ins.op == "call" and isinstance(ins.callee, GRef) else None
        if ins.op == "store" and self.cell(self.val(s, ins.ops[1])):
            g = self.val(s, ins.ops[1])[1][1]
            if s.auto == "after":
                self.regional.add(g)
            else:
                self.outside.add((g, ins))
        if s.auto == "before":
            if n == "device_read_event":
                self.starts.append((s.copy(), ins.block, ins.block.insts.index(ins)))
                return False
        elif s.auto == "after":
            if ins.op == "load":
                a = self.val(s, ins.ops[0])
                if self.cell(a):
                    w = self.width(ins.ty)
                    self.loaded.add((a, w))
                    if (a, w) not in s.mem:
                        s.mem[(a, w)] = 0
            elif ins.op == "call":
                if n is None:
                    self.out.add(("handled", self.valuation(s)))
                    s.auto = "post"
                elif n in ("device_read_event", "poll"):
                    self.out.add(("skipped", self.valuation(s)))
                    return False
                elif self.noreturn(ins) or n in ("exit", "_exit", "abort"):
                    self.out.add(("die", None))
                    return False
        elif s.auto == "post" and n in ("device_read_event", "poll"):
            return False
        return None

    def step_event(self, ev, val):
        t, code, pressed = ev
        self.out = set()
        starts = []
        for s, b, i in self.starts:
            s = s.copy()
            ins = b.insts[i]
            self.step(s, ins)
            s.auto = "after"
            r = ("v", ins)
            s.env[ins] = r
            s.facts[r] = (1, INF, frozenset())
            for k in [k for k in s.mem if self.cell(k[0])]:
                del s.mem[k]
            for (f, ty), v in zip((("type", 4), ("code", 1), ("pressed", 1)), (t, code, pressed)):
                s.mem[(("a", r, (("f", "device_event", f),)), ty)] = v
            for k, v in val:
                s.mem[k] = v
            starts.append((s, b, i + 1))
        self.run(starts)
        return self.out

    def on_exit(self, s, t):
        if s.auto == "after":
            self.out.add(("die" if t.op == "unreachable" else "left", None))


def run(ctx):
    m = ctx.mod

    def rule(ctx):
        root = ctx.need(m.fn("evloop"), "evloop not found")
        f = inline(m, root, lambda c, ch: c.file not in ("src/device.c", "src/daemon.c", "src/log.c", "src/keyboard.c"))
        ms = ModSets(m)
        ctx.need(any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "device_read_event" for i in f.insts()), "evloop reads no device events")
        tracked = set()
        for i in f.insts():
            if i.op == "store":
                r, fs = ms._addr(i.ops[1])
                if isinstance(r, GRef) and r.name in m.globals and not fs and not m.globals[r.name].const:
                    g = m.globals[r.name]
                    t = g.ty
                    while t.k == "arr":
                        t = t.b
                    if t.k == "int" and g.file == root.file or t.k == "int" and g.fn:
                        tracked.add(r.name)
        keys = {m.enum(k): k for k in ("KEYD_ENTER", "KEYD_BACKSPACE", "KEYD_ESC")}
        codes = set(keys)
        for i in f.insts():
            cs = [o.v for o in i.ops if isinstance(o, Const)] if i.op == "icmp" else [c for c, _ in i.cases or ()] if i.op == "switch" else []
            for c in cs:
                for d in (-1, 0, 1):
                    if 0 < c + d < 256:
                        codes.add(c + d)
        codes |= {30, 57, 96, 183, 255}
        types = {n: m.enum(n) for n in ("DEV_KEY", "DEV_LED", "DEV_MOUSE_MOVE", "DEV_MOUSE_MOVE_ABS", "DEV_MOUSE_SCROLL", "DEV_REMOVED")}
        e = Step(m, f, ms, tracked)
        e.run()
        ctx.need(e.starts, "no path reaches device_read_event")
        reported = {}
        while True:
            n = len(e.loaded)
            reported.clear()
            seen = explore(ctx, m, e, codes, keys, types, reported)
            if len(e.loaded) == n:
                break
        for k, (msg, path) in reported.items():
            ctx.violation(k, msg, f"{root.file}:{root.line}", path)
        for g, i in e.outside:
            if g in e.regional:
                ctx.violation("outside:" + str(i.fnsrc), f"{i.fnsrc} changes what is remembered about the panic keys outside the handling of a key event", m.where(i))
        ctx.count("tracker_states", len(seen))
        ctx.count("trackers", len(e.loaded))
    ctx.rule("the daemon stops before handling exactly the key event after which backspace, escape and enter are all down", rule)



def explore(ctx, m, e, codes, keys, types, reported):
    seen, work = set(), [((), frozenset())]
    while work:
        st = work.pop()
        if st in seen:
            continue
        ctx.need(len(seen) < 200, "the panic trackers take more than 200 valuations")
        seen.add(st)
        val, down = st
        for tn, t in types.items():
            for c in sorted(codes if tn == "DEV_KEY" else keys):
                for p in (1, 0):
                    out = e.step_event((t, c, p), val)
                    ctx.count("transitions")
                    nd = down
                    if tn == "DEV_KEY" and c in keys:
                        nd = down | {c} if p else down - {c}
                    what = f"{tn} code {keys.get(c, c)} {'down' if p else 'up'} with {{{', '.join(keys[k] for k in sorted(down))}}} held"
                    must = tn == "DEV_KEY" and nd == frozenset(keys)
                    ctx.need(out, f"no path continues from device_read_event for {what}")
                    kinds = {k for k, _ in out}
                    if must and kinds != {"die"}:
                        reported["miss"] = ("the panic sequence does not always stop the daemon before the event is acted upon", what)
                    elif not must and "die" in kinds:
                        reported["spurious:" + tn] = ("the daemon stops although the three panic keys are not all held", what)
                    elif not must:
                        for k, v in out:
                            ctx.need(v is not None, "a panic tracker takes a value that is not determined by the event")
                            work.append((v, nd))
    return seen
