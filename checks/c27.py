"""C27: pointer events. The three stages are simulated: (1) reading a relative event with a symbolic amount yields a motion (REL_X, REL_Y) or wheel (REL_WHEEL,
REL_HWHEEL) event with that amount on that axis and 0 on the other; absolute positions are scaled from the axis range to 0..1024 (ranges with positive, zero
and negative minimum) and, followed through to the output, appear as exactly that axis; (2) the handler passes motion and position on unchanged, in scroll
mode turns accumulated motion into ticks on the same axis (ticks * sensitivity + rest = motion) and nothing else, and turns n wheel ticks into n taps of
the scroll key of that direction; (3) the output functions write each nonzero amount on its axis followed by a report, scroll keys write one
tick of their direction, all to the virtual pointer, which declares these axes (and the 0..1024 range)."""
from seq import *
from c20 import *
import c20

ASSUMPTIONS = ["code passed for other keys: C20; binding of scroll keys to actions: like any key"]


def codes(m):
    return {n: m.macro(n) for n in ("EV_REL", "EV_ABS", "REL_X", "REL_Y", "REL_WHEEL", "REL_HWHEEL", "ABS_X", "ABS_Y")}


class ReadAbs(Read):
    rng_ = None

    def seed(self, s):
        if self.rng_ is not None:
            d = ("v", self.fn.args[0])
            for f, v in zip(("_minx", "_maxx", "_miny", "_maxy"), self.rng_):
                s.mem[(("a", d, (("f", "device", f),)), 4)] = v


def relative(ctx):
    m = ctx.mod
    C = codes(m)
    f, g = reader(ctx)
    ms = ModSets(m)
    exp = {"REL_X": ("DEV_MOUSE_MOVE", 1, 0), "REL_Y": ("DEV_MOUSE_MOVE", 0, 1), "REL_WHEEL": ("DEV_MOUSE_SCROLL", 0, 1), "REL_HWHEEL": ("DEV_MOUSE_SCROLL", 1, 0)}
    for n, (ty, dx, dy) in exp.items():
        for V in (("v", Sym("value", 32)), 1, -1, 120, -32768, 70000, -70000, 0):
            e = readone(m, g, ms, C["EV_REL"], C[n], V)
            ctx.count("events", e.events)
            ctx.need(e.got, f"no path reads {n}")
            for d, t, tr in e.got:
                if d is None and V == 0:
                    continue
                if d is None or d == "?":
                    ctx.violation(f"rel:{n}", f"a {n} event is {'dropped' if d is None else 'not followed'}", m.where(t), tr)
                elif d["type"] != m.enum(ty) or d["x"] != (V if dx else 0) or d["y"] != (V if dy else 0):
                    ctx.violation(f"rel:{n}", f"a {n} event of amount {V if isinstance(V, int) else 'v'} is read as type {d['type']}, x={show(d['x'], V)}, y={show(d['y'], V)}", m.where(t), tr)
    for c in range(16):
        if c not in (C["REL_X"], C["REL_Y"], C["REL_WHEEL"], C["REL_HWHEEL"]):
            e = readone(m, g, ms, C["EV_REL"], c, 5)
            for d, t, tr in e.got:
                if d is not None:
                    ctx.violation(f"rel-other:{c}", f"a relative event of axis {c} is read as {d}", m.where(t), tr)


def show(x, V):
    return "v" if x == V and not isinstance(V, int) else x


RANGES = [(0, 1024, (0, 1, 512, 1023, 1024)), (0, 100, (0, 1, 50, 99, 100)), (-100, 100, (-100, -50, 0, 50, 100)), (200, 1000, (200, 201, 600, 1000)),
          (0, 65535, (0, 40000, 65535)), (0, 100000000, (0, 3000000, 99999999)), (-32768, 32767, (-32768, -1, 0, 32767))]


def absolute(ctx):
    m = ctx.mod
    C = codes(m)
    f, g = reader(ctx)
    ms = ModSets(m)
    fo = ctx.need(m.fn("vkbd_mouse_move_abs", "src/vkbd/uinput.c"), "vkbd_mouse_move_abs not found")
    go = inline(m, fo, lambda c, ch: c.src != "xwrite")
    other = (0, 4096)
    for n, ax in (("ABS_X", 0), ("ABS_Y", 1)):
        for lo, hi, vs in RANGES:
            for v in vs:
                e = ReadAbs(m, g, ms).setup(C["EV_ABS"], C[n], v)
                e.rng_ = (lo, hi) + other if ax == 0 else other + (lo, hi)
                follow(e, g, m)
                e.run()
                ctx.count("events", e.events)
                ctx.need(e.got, f"no path reads {n}")
                want = (v - lo) * 1024 // (hi - lo)
                what = f"{n} = {v} (range {lo}..{hi})"
                for d, t, tr in e.got:
                    if d is None or d == "?":
                        ctx.violation(f"abs-read:{n}", f"{what} is {'dropped' if d is None else 'not followed'}", m.where(t), tr)
                        continue
                    if d["type"] != m.enum("DEV_MOUSE_MOVE_ABS"):
                        ctx.violation(f"abs-type:{n}", f"{what} is read as type {d['type']}", m.where(t), tr)
                        continue
                    x, y = d["x"], d["y"]
                    if not isinstance(x, int) or not isinstance(y, int):
                        ctx.undecide(what, "the position read is not known")
                        continue
                    sx = lambda q: q - (1 << 32) if q >> 31 == 1 else q
                    e2 = sendone(m, go, ms, None, sx(x), sx(y))
                    for ws, t2, tr2 in e2.got:
                        ws = [w for w in ws if w[1] != 0]
                        if len(ws) != 1 or ws[0][0] != "pfd" or ws[0][1] != C["EV_ABS"] or ws[0][2] != C[n] or not isinstance(ws[0][3], int) or abs(ws[0][3] - want) > 1 or not 0 <= ws[0][3] <= 1024:
                            ctx.violation(f"abs:{n}", f"{what} comes out as {[w for w in ws]} instead of position {want}", m.where(t), tr)
                        ctx.count("positions")


def vk(ctx):
    """The functions writing motion and wheel events."""
    m = ctx.mod
    C = codes(m)
    ms = ModSets(m)
    dec = declared(ctx).get("pfd", {})
    for fn, typ, axes in (("vkbd_mouse_move", "EV_REL", ("REL_X", "REL_Y")), ("vkbd_mouse_scroll", "EV_REL", ("REL_HWHEEL", "REL_WHEEL")),
                          ("vkbd_mouse_move_abs", "EV_ABS", ("ABS_X", "ABS_Y"))):
        f = ctx.need(m.fn(fn, "src/vkbd/uinput.c"), f"{fn} not found")
        g = inline(m, f, lambda c, ch: c.src != "xwrite")
        cases = [(a, b) for a in (0, 1, -1, 7, -300) for b in (0, 1, -1, 5, -4)] + [(("v", Sym("x")), ("v", Sym("y")))]
        if fn.endswith("abs"):
            cases = [(a, b) for a in (-1, 0, 1, 1024) for b in (-1, 0, 700)]
        for X, Y in cases:
            e = sendone(m, g, ms, None, X, Y)
            ctx.count("events", e.events)
            ctx.need(e.got, f"{fn} never returns")
            for (ws, t, tr), s in zip(e.got, e.fin):
                where = m.where(t)
                if any(w[0] != "pfd" for w in ws):
                    ctx.violation(f"{fn}:device", f"{fn} writes to another device than the virtual pointer", where, tr)
                if not ws or ws[-1][1:] != (0, 0, 0):
                    if [w for w in ws if w[1] != 0] or isinstance(X, tuple):
                        ctx.violation(f"{fn}:report", f"{fn} does not finish with a report", where, tr)
                left = {axes[0]: X, axes[1]: Y}
                for w in ws:
                    if w[1] == 0:
                        continue
                    a = next((n for n in axes if w[1] == C[typ] and w[2] == C[n]), None)
                    if a is None:
                        ctx.violation(f"{fn}:axis", f"{fn} writes an event of type {w[1]}, code {w[2]}", where, tr)
                    elif w[3] != left[a] and not (isinstance(w[3], int) and isinstance(left[a], int) and (w[3] - left[a]) % (1 << 32) == 0):
                        ctx.violation(f"{fn}:amount", f"{fn}({X}, {Y}) writes {a} = {w[3]}" if isinstance(X, int) else f"{fn}(x, y) writes another amount for {a}", where, tr)
                    else:
                        left[a] = 0 if typ == "EV_REL" else -1
                for a, v in left.items():
                    if typ == "EV_REL" and e.const(s, v) != 0 or typ == "EV_ABS" and v >= 0:
                        ctx.violation(f"{fn}:lost", f"{fn}({X}, {Y}) writes nothing for {a}" if isinstance(X, int) else f"{fn}(x, y) may write nothing for {a}", where, tr)
        for a in axes:
            if C[a] not in dec.get(typ[3:], ()) or C[typ] not in dec.get("EV", ()):
                ctx.violation(f"undeclared:{a}", f"{a} is never declared on the virtual pointer", f"{f.file}:{f.line}", "")


class Range(Declare):
    """The ranges of absolute axes, in the description written before the device is created."""

    def call_write(self, s, ins, args):
        if self.const(s, args[2]) == self.mod.structsize("uinput_user_dev") and isinstance(args[1], tuple):
            r, q = (args[1][1], args[1][2]) if args[1][0] == "a" else (args[1], ())
            for i in (0, 1):
                for f in ("absmin", "absmax"):
                    p = (("f", "uinput_user_dev", f),)
                    v = peek(self, s, ("a", r, q + p + ((("x", i),) if i else ())), 4)
                    self.put(s, ("rng", args[0], f, i, self.const(s, v) if v is not None else None))
    call_xwrite = call_write


def ranges(ctx):
    m = ctx.mod
    f = ctx.need(m.fn("vkbd_init", "src/vkbd/uinput.c"), "vkbd_init not found")
    g = inline(m, f, lambda c, ch: c.file == f.file)
    e = Range(m, g, ModSets(m))
    e.REQ = {(1 << 30) | (4 << 16) | (ord("U") << 8) | 103: "ABS"}
    e.CREATE = (ord("U") << 8) | 1
    follow(e, g, m)
    e.run()
    n = 0
    for s, t in e.exits:
        for x in e.get(s, "is"):
            for y in e.get(s, "bit"):
                if y[1] == x[2]:
                    for z in e.get(s, "rng"):
                        if z[1] == y[1] and z[3] == y[3]:
                            n += 1
                            want = 1024 if z[2] == "absmax" else 0
                            if z[4] is None:
                                ctx.undecide("absolute axis range", "not followed")
                            elif z[4] != want:
                                ctx.violation(f"absrange:{z[2]}:{z[3]}", f"the virtual pointer declares {z[2]} = {z[4]} for absolute axis {z[3]}, positions are scaled to 0..1024", m.where(t), "")
    ctx.count("axis_ranges", n)


class Motion(Hand):
    """The handler for motion; kbd->scroll is concrete."""
    sc = None

    def seed(self, s):
        Hand.seed(self, s)
        for f, v in (self.sc or {}).items():
            s.mem[(self.cell(f), self.W[f])] = v

    def cell(self, f):
        return ("a", self.kbd, (("f", "keyboard", "scroll"), ("f", self.SN, f)))


def scrollstruct(m):
    t = m.fieldty("keyboard", "scroll")
    n = t.a if t.k == "named" else None
    d, names = m.fields.get(n, (None, None))
    W = {}
    for k, f in enumerate(names or ()):
        ft = m.resolve(t).a[k]
        W[f] = (ft.a + 7) // 8 if ft.k == "int" else 8
    return d, W


def motion(ctx):
    m = ctx.mod
    f, g = handler(ctx)
    ms = ModSets(m)
    SN, W = scrollstruct(m)
    ctx.need(SN and {"x", "y", "active", "sensitivity"} <= set(W), "the scroll state of the keyboard was not found")
    dx, dy = ("v", Sym("dx")), ("v", Sym("dy"))

    def one(typ, x, y, sc):
        e = Motion(m, g, ms).setup(m.enum(typ), x=x, y=y)
        e.SN, e.W, e.sc = SN, W, sc
        follow(e, g, m)
        e.run()
        ctx.need(e.got, "the handler never returns")
        ctx.count("events", e.events)
        return e
    for typ, fn, scs in (("DEV_MOUSE_MOVE", "vkbd_mouse_move", [dict(active=0)]), ("DEV_MOUSE_MOVE_ABS", "vkbd_mouse_move_abs", [None])):
        for sc in scs:
            e = one(typ, dx, dy, sc)
            for o, s, t in e.got:
                if o != ((fn, dx, dy),):
                    ctx.violation(f"pass:{typ}", f"{typ[4:].lower()} events are passed on as {[x[0] for x in o]}" + (" with other amounts" if [x[0] for x in o] == [fn] else ""), m.where(t), trace_str(s.trace))
    grid = [(x, y) for x in (0, 1, -1, 5, -64) for y in (0, 2, -2, 640, -7)]
    for sens in (1, 3, 20):
        for ax, ay in ((0, 0), (2, -2), (-1, 1)):
            if sens == 1 and ax:
                continue
            for x, y in grid:
                e = one("DEV_MOUSE_MOVE", x, y, dict(active=1, sensitivity=sens, x=ax, y=ay))
                for o, s, t in e.got:
                    tr = trace_str(s.trace)
                    if any(z[0] != "vkbd_mouse_scroll" for z in o):
                        ctx.violation("scroll:other", f"in scroll mode motion causes {[z[0] for z in o if z[0] != 'vkbd_mouse_scroll']}", m.where(t), tr)
                        continue
                    if any(not isinstance(q, int) for z in o for q in z[1:]):
                        ctx.undecide("scroll mode", "the ticks are not known")
                        continue
                    sg = lambda q: q - (1 << 32) if q >> 31 == 1 else q
                    tx, ty = sum(sg(z[1]) for z in o), sum(sg(z[2]) for z in o)
                    rx, ry = peek(e, s, e.cell("x"), W["x"]), peek(e, s, e.cell("y"), W["y"])
                    if len(e.got) > 1 or rx is None or ry is None or e.const(s, rx) is None or e.const(s, ry) is None:
                        ctx.undecide("scroll mode", "the rest of the motion is not known")
                        continue
                    rx, ry = e.const(s, rx), e.const(s, ry)
                    for axis, tick, rest, tot in (("horizontal", tx, rx, ax + x), ("vertical", -ty, ry, ay + y)):
                        if tick * sens + rest != tot or abs(rest) >= sens:
                            ctx.violation(f"scroll:{axis}", f"scroll mode, sensitivity {sens}: {axis} motion of {tot} becomes {tick} ticks, rest {rest}", m.where(t), tr)
                    ctx.count("scroll_cases")


def wheel(ctx):
    m = ctx.mod
    f, g = handler(ctx)
    ms = ModSets(m)
    K = {n: m.macro("KEYD_SCROLL_" + n) for n in ("UP", "DOWN", "LEFT", "RIGHT")}
    for x, y, key in [(0, 1, "UP"), (0, 2, "UP"), (0, -1, "DOWN"), (0, -3, "DOWN"), (1, 0, "RIGHT"), (3, 0, "RIGHT"), (-1, 0, "LEFT"), (-2, 0, "LEFT"), (0, 0, None)]:
        e = Hand(m, g, ms).setup(m.enum("DEV_MOUSE_SCROLL"), x=x, y=y)
        follow(e, g, m)
        e.run()
        ctx.count("events", e.events)
        ctx.need(e.got, "the handler never returns")
        want = [(K[key], 1), (K[key], 0)] * abs(x + y) if key else []
        for o, s, t in e.got:
            ev = [tuple(q % 256 if isinstance(q, int) else q for q in k) for z in o if z[0] == "keys" for k in z[3]]
            if [z for z in o if z[0] != "keys"] or any(z[1] not in (e.kbd,) for z in o):
                # the keyboard the event goes to may be named through the global naming the active one
                bad = [z[0] for z in o if z[0] != "keys"]
                ctx.violation("wheel:other", f"wheel ticks cause {bad or 'key events for another keyboard'}", m.where(t), trace_str(s.trace))
            if ev != want:
                ctx.violation(f"wheel:{key}", f"a wheel event ({x}, {y}) is passed on as key events {ev}", m.where(t), trace_str(s.trace))
    f, g = sender(ctx)
    C = codes(m)
    for n, (ax, v) in {"UP": ("REL_WHEEL", 1), "DOWN": ("REL_WHEEL", -1), "RIGHT": ("REL_HWHEEL", 1), "LEFT": ("REL_HWHEEL", -1)}.items():
        for st in (1, 0):
            e = sendone(m, g, ms, K[n], st)
            ctx.need(e.got, f"no path sends {n}")
            for ws, t, tr in e.got:
                mv = [(w[2], w[3]) for w in ws if w[1] == C["EV_REL"] and w[3] != 0]
                keys = [w for w in ws if w[1] not in (0, C["EV_REL"])]
                mv = [(c, q - (1 << 32) if isinstance(q, int) and q >> 31 == 1 else q) for c, q in mv]
                if keys or any(w[0] != "pfd" for w in ws) or mv != ([(C[ax], v)] if st else []) or (mv and ws[-1][1:] != (0, 0, 0)):
                    ctx.violation(f"tick:{n}", f"{'pressing' if st else 'releasing'} scroll{n.lower()} writes {list(ws)}", m.where(t), tr)


def run(ctx):
    ctx.rule("relative events are read with their axis and amount", relative)
    ctx.rule("absolute positions are scaled to the output range and come out on their axis", absolute)
    ctx.rule("motion and position are passed on unchanged, or become exactly the wheel ticks of the motion in scroll mode", motion)
    ctx.rule("wheel ticks become taps of the scroll key of their direction, and back", wheel)
    ctx.rule("motion and wheel output is complete and on declared axes of the virtual pointer", vk)
    ctx.rule("the absolute axes of the virtual pointer have the range positions are scaled to", ranges)
