"""C40: tap or hold. The decision about an undecided key is extracted from the engine as a table, by abstract interpretation over LLVM IR: for each of the
three deferring actions, what pressing the key sets up (the key, the moment, which action is the tap and which the hold); for each kind of set-up and each
class of event (its own release, another key struck, a key struck since released, a key struck before released, time alone; before, at and after the
moment) which of the two actions is carried out, or neither yet. For overload and overloadi, which deal at once, the tap is judged over the key struck last,
the time held and the time since the last symbol, on both sides of every bound; the two notes these judgements rest on are shown to be taken at every press. All
of it is compared with the manual's description of each action."""
import itertools
from seq import *
from c20 import follow
from c42 import deep, idx

ASSUMPTIONS = ["a deadline that has passed is delivered before later events (C10)", "events held back are replayed in order (C11)"]
OWN, OTHER, THIRD = 30, 31, 32
POS = (1, 1 << 62, frozenset())
NOW, T = 2 ** 31 + 5000, 200
END = 2 ** 31    # the moments around it lie on both sides of the bound of an int


class Kb(Seq):
    """The keyboard's members are known by name; bindings by a symbol per binding."""

    def setup(self, ctx, **cells):
        self.ctx, self.cells_, self.got, self.done = ctx, cells, [], []
        self.ops = ctx.opsyms
        self.K, self.D = Sym("kbd", 64, POS), Sym("d", 64, POS)
        return self

    def _mayalias(self, a, b):
        ra, rb = (x[1] if isinstance(x, tuple) and x[0] == "a" else x for x in (a, b))
        r = (("v", self.K), ("v", self.D))
        if ra in r and rb in r and ra != rb:
            return False
        return Seq._mayalias(self, a, b)

    def fresh_load(self, s, addr, ins):
        if not (isinstance(addr, tuple) and addr[0] == "a"):
            return None
        d = deep(addr)
        if not d:
            return None
        if addr[1] == ("v", self.D):
            if d[-1] == "op":
                return self.cells_["op"]
            if "args" in d:
                i = idx(addr, "args")
                return self.cells_["args"][i] if isinstance(i, int) and i < len(self.cells_["args"]) else None
            return None
        if addr[1] != ("v", self.K):
            return None
        if "descriptors" in d and d[-1] == "op":
            i = idx(addr, "descriptors")
            return ("v", self.ops["aux", i]) if isinstance(i, int) and ("aux", i) in self.ops else None
        if "pending_key" in d:
            if "queue" in d:
                i = idx(addr, "queue")
                q = self.cells_.get("queue", ())
                if isinstance(i, int) and i < len(q) and d[-1] in ("code", "pressed"):
                    return q[i][0 if d[-1] == "code" else 1]
                return None
            if d[-1] == "queue_sz":
                return len(self.cells_.get("queue", ()))
            if d[-2:] == ["action1", "op"] or d[-2:] == ["action2", "op"]:
                return ("v", self.ops[d[-2]])
            if d[-1] in self.cells_ and isinstance(self.cells_[d[-1]], int):
                return self.cells_[d[-1]]
            if d[-1] == "tap_expiry":
                return 0
            return None
        if "cache" in d and d[-1] == "code":
            return OWN if idx(addr, "cache") == 0 else 0
        if d[-1] in self.cells_:
            return self.cells_[d[-1]]
        if d[0] == "config" and len(d) == 2 and d[-1] == "overload_tap_timeout":
            return self.cells_.get("tap_timeout")
        return None

    def memcpy(self, s, dst, src, ins, n):
        Seq.memcpy(self, s, dst, src, ins, n)
        if isinstance(src, tuple):
            r, p = (src[1], src[2]) if src[0] == "a" else (src, ())
            a = ("a", r, p + (("f", "descriptor", "op"),))
            v = s.mem.get((a, 4))
            if v is None and p and deep(src)[-1:] in (["action1"], ["action2"], ["descriptors"]):
                v = self.fresh_load(s, a, ins)
            if v is not None:
                r, p = (dst[1], dst[2]) if dst[0] == "a" else (dst, ())
                s.mem[(("a", r, p + (("f", "descriptor", "op"),)), 4)] = v

    def opof(self, s, a, ins):
        if not isinstance(a, tuple):
            return None
        r, p = (a[1], a[2]) if a[0] == "a" else (a, ())
        b = ("a", r, p + (("f", "descriptor", "op"),))
        v = peek(self, s, b, 4)
        if v is None:
            v = self.fresh_load(s, b, ins)
        if isinstance(v, tuple) and v[0] == "fld":
            v = None
        return v

    def on_inst(self, s, ins):
        if ins.op == "call" and isinstance(ins.callee, GRef) and ins.callee.name == self.ctx.desc.name:
            args = [self.val(s, o) for o in ins.ops]
            v = self.opof(s, args[self.ctx.dpos], ins)
            name = next((k for k, o in self.ops.items() if v == ("v", o)), v)
            if self.const(s, args[self.ctx.ppos]) == 1:
                self.put(s, ("does", name if not isinstance(name, tuple) or name[0] in ("aux",) else "?" if name[0] != "aux" else name, self.const(s, args[self.ctx.cpos])))
        return Seq.on_inst(self, s, ins)

    def extra_key(self, s, block):
        return None

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def roles(ctx):
    m = ctx.mod
    ctx.ms = ModSets(m)
    d = ctx.desc = descriptor_fn(m)
    names = [a.name for a in d.args]
    ctx.need(all(x in names for x in ("code", "pressed", "time")) or len(d.args) == 6, "the action function takes other arguments")
    ptr = [i for i, a in enumerate(d.args) if a.ty.k == "ptr"]
    ints = [i for i, a in enumerate(d.args) if a.ty.k == "int"]
    ctx.kpos, ctx.dpos = (names.index("kbd") if "kbd" in names else ptr[0]), (names.index("d") if "d" in names else ptr[1])
    ctx.cpos = names.index("code") if "code" in names else ints[0]
    ctx.ppos = names.index("pressed") if "pressed" in names else ints[-2]
    ctx.tpos = names.index("time") if "time" in names else ints[-1]
    ctx.opsyms = {k: Sym(str(k), 32, (1, 40, frozenset())) for k in ["action1", "action2"] + [("aux", i) for i in range(8)]}


def press(ctx, op, args, pressed=1, code=OWN, **cells):
    """The action function for one binding."""
    m = ctx.mod
    d = ctx.desc
    if not hasattr(ctx, "dg"):
        big = {f.name for f in m.fns.values() if f.file == KFILE and f is not d and any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == d.name for i in f.insts())}
        ctx.dg = inline(m, d, lambda c, ch: c.file == KFILE and c.src != d.name and c.src not in big and len(list(c.blocks)) < 9 and not CFG(c).loops)
    g = ctx.dg
    e = Kb(m, g, ctx.ms).setup(ctx, op=op, args=args, **cells)

    def seed(s):
        for p, v in ((ctx.kpos, ("v", e.K)), (ctx.dpos, ("v", e.D)), (ctx.cpos, code), (ctx.ppos, pressed), (ctx.tpos, NOW)):
            s.env[g.args[p]] = v
    e.seed = seed
    e.run()
    ctx.count("action_runs")
    return e


def pk(e, s, f, w):
    for (a, x), v in s.mem.items():
        if x == w and isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", e.K):
            d = deep(a)
            if d[0] == "pending_key" and d[1:] == f.split("."):
                return v


SETUP = {}   # op name -> behaviour


def setups(ctx):
    m = ctx.mod
    roles(ctx)
    SETUP.clear()
    en = ops(m)
    OPL = en["OP_LAYER"]
    for op, args in (("OP_OVERLOAD_TIMEOUT", (3, 4, T)), ("OP_OVERLOAD_TIMEOUT_TAP", (3, 4, T)), ("OP_TIMEOUT", (4, T, 5))):
        if op not in en:
            ctx.undecide(op, "the action does not exist")
            continue
        e = press(ctx, en[op], args)
        if not e.got:
            ctx.undecide(op, "no path ends")
        for s, t in e.got:
            path = dict(where=m.loc(t), path=trace_str(s.trace))
            ctx.count("setups")
            if any(True for x in e.get(s, "does")):
                ctx.violation("early", f"{op}: an action is carried out before it is known whether the key is tapped or held", **path)
                continue
            c, x, b = pk(e, s, "code", 1), pk(e, s, "expire", 8), pk(e, s, "behaviour", 4)
            if c is None or x is None or b is None:
                if c is None and not any(deep(a)[:1] == ["pending_key"] for (a, _) in s.mem if isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", e.K) and deep(a)):
                    ctx.violation("not-set-up", f"{op}: pressing the key sets nothing up", **path)
                else:
                    ctx.undecide(op, "how the key is set up is not known")
                continue
            if c != OWN:
                ctx.violation("key", f"{op}: another key than the one pressed becomes undecided", **path)
            if isinstance(x, int) and x != NOW + T:
                ctx.violation("moment", f"{op}: the decision is made {x - NOW} ms after the press instead of after {T}", **path)
            if isinstance(b, int):
                SETUP.setdefault(op, set()).add(b)
            o1, o2 = (pk(e, s, a + ".op", 4) for a in ("action1", "action2"))
            tap = ("v", ctx.opsyms["aux", 4])
            if o1 is not None and o1 != tap and (isinstance(o1, int) or o1 in [("v", o) for o in ctx.opsyms.values()]):
                ctx.violation("tap-action", f"{op}: a tap carries out something else than the action named for it", **path)
            if op == "OP_TIMEOUT":
                if o2 in [("v", o) for o in ctx.opsyms.values()] and o2 != ("v", ctx.opsyms["aux", 5]) or isinstance(o2, int):
                    ctx.violation("hold-action", f"{op}: holding the key carries out something else than the second action", **path)
            else:
                if isinstance(o2, int) and o2 != OPL or o2 in [("v", o) for o in ctx.opsyms.values()]:
                    ctx.violation("hold-action", f"{op}: holding the key does something else than activate the layer", **path)
                l = next((v for (a, w), v in s.mem.items() if isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", e.K) and deep(a)[:3] == ["pending_key", "action2", "args"] and idx(a, "args") == 0), None)
                if isinstance(l, int) and l & 0xff != 3:
                    ctx.violation("hold-action", f"{op}: holding the key activates another layer than the one named", **path)


def pendfn(ctx):
    m, ms = ctx.mod, ctx.ms
    ev = event_fn(m)
    out = []
    for f in m.fns.values():
        if f.file != KFILE or f is ev or f is ctx.desc:
            continue
        if not any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == ctx.desc.name for i in f.insts()):
            continue
        g = inline(m, f, lambda c, ch: c.file == KFILE and c.src not in (ctx.desc.name, ev.name) and not calls(c, ctx.desc.name) and c.src != "kbd_process_events")
        if any(i.op == "load" and ms._addr(i.ops[0])[1][-1:] and ms._addr(i.ops[0])[1][-1][1] == "expire" for i in g.insts()):
            out.append((f, g))
    return out


def calls(f, n):
    return any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == n for i in f.insts())


def table(ctx):
    m = ctx.mod
    if not hasattr(ctx, "desc"):
        roles(ctx)
    fs = pendfn(ctx)
    if len(fs) > 1:
        fs = [x for x in fs if not any(calls(x[0], y[0].name) for y in fs if y is not x)]
    if len(fs) != 1 or not SETUP:
        ctx.undecide("undecided keys", "no single function decides about them")
        return
    f, g = fs[0]
    ptr = [a for a in g.args if a.ty.k == "ptr"]
    ints = [a for a in g.args if a.ty.k == "int"]
    if len(ptr) != 1 or len(ints) != 3:
        ctx.undecide("undecided keys", "the function which decides about them takes other arguments")
        return
    ctx.count("deciding_functions")
    # event: (text, code, pressed, queue)
    events = [("its own release", OWN, 0, ()), ("its own release after another key was struck", OWN, 0, ((OTHER, 1),)),
              ("another key being struck", OTHER, 1, ()), ("a third key being struck", THIRD, 1, ((OTHER, 1),)),
              ("the release of a key struck since", OTHER, 0, ((OTHER, 1),)), ("the release of the first key struck since", OTHER, 0, ((OTHER, 1), (THIRD, 1))),
              ("the release of the second key struck since", THIRD, 0, ((OTHER, 1), (THIRD, 1))),
              ("the release of a key struck before", THIRD, 0, ()), ("the release of a key struck before, after another was struck", THIRD, 0, ((OTHER, 1),)),
              ("the passing of time", 0, 0, ()), ("the passing of time after another key was struck", 0, 0, ((OTHER, 1),))]
    for op, bs in SETUP.items():
        for b in bs:
            for (text, code, pressed, q), dt in itertools.product(events, (-T + 1, -1, 0, 1)):
                e = Kb(m, g, ctx.ms).setup(ctx, op=0, args=(), queue=q, behaviour=b, code=OWN, expire=END, dl=0)

                def seed(s):
                    s.env[ptr[0]] = ("v", e.K)
                    for a, v in zip(ints, (code, pressed, END + dt)):
                        s.env[a] = v
                e.seed = seed
                follow(e, g, m)
                e.run()
                ctx.count("decisions")
                # what the manual says
                before = code == THIRD and not pressed and (THIRD, 1) not in q
                if dt >= 0:
                    want = None if before else "action2"
                    if before:
                        continue
                elif code == OWN:
                    want = "action1"
                elif code == 0 or before:
                    want = "none"
                elif pressed:
                    want = "action1" if op == "OP_TIMEOUT" else "none"
                    if op == "OP_TIMEOUT" and q:
                        continue        # decided at the first key
                else:
                    want = "action2" if op == "OP_OVERLOAD_TIMEOUT_TAP" else "none"
                    if op == "OP_TIMEOUT":
                        continue
                when = f"{-dt} ms before the time is up" if dt < 0 else f"{dt} ms after the time is up" if dt else "when the time is up"
                for s, t in e.got:
                    did = [x for x in e.get(s, "does")]
                    path = dict(where=m.loc(t), path=trace_str(s.trace))
                    got = did[0][1] if len(did) == 1 else "none" if not did else "several"
                    names = {"action1": "a tap", "action2": "a hold", "none": "undecided", "several": "both"}
                    if got not in names:
                        if isinstance(got, int):
                            ctx.violation("decision", f"{op}: {text} {when} makes the key neither a tap nor a hold", **path)
                        else:
                            ctx.undecide(op, "what is carried out is not known")
                    elif got != want:
                        ctx.violation("decision", f"{op}: {text} {when} leaves the key {names[got]} instead of {names[want]}", **path)
                    elif did and did[0][2] != OWN:
                        ctx.violation("decision-key", f"{op}: the action is carried out for another key", **path)


def immediate(ctx):
    m = ctx.mod
    if not hasattr(ctx, "desc"):
        roles(ctx)
    en = ops(m)
    for lastcode, held, tt in itertools.product((OWN, OTHER), (0, T - 1, T, T + 1, 2 ** 31 + 9), (0, T)):
        e = press(ctx, en["OP_OVERLOAD"], (3, 4), 0, last_pressed_code=lastcode, overload_start_time=NOW - held, tap_timeout=tt)
        want = lastcode == OWN and (not tt or held < tt)
        for s, t in e.got:
            did = e.get(s, "does")
            macro = any(x[1] == "macro" for x in e.get(s, "ran"))
            path = dict(where=m.loc(t), path=trace_str(s.trace))
            w = f"overload: the key is released after {held} ms, {'no' if lastcode == OWN else 'another'} key was struck meanwhile, overload_tap_timeout is {tt}: "
            if did and not want:
                ctx.violation("overload-tap", w + "it counts as a tap", **path)
            elif did and any(x[1] != ("aux", 4) for x in did):
                if not all(isinstance(x[1], tuple) for x in did):
                    ctx.undecide("overload", "which action is carried out is not known")
                else:
                    ctx.violation("overload-action", w + "another action is carried out", **path)
        if want and e.got and not any(e.get(s, "does") for s, t in e.got):
            ctx.violation("overload-hold", f"overload: the key is released after {held} ms, no other key was struck meanwhile, overload_tap_timeout is {tt}: it does not count as a tap", where=m.loc(e.got[0][1]))
        if not e.got:
            ctx.undecide("overload", "no path ends")
    e = press(ctx, en["OP_OVERLOAD"], (3, 4), 1, overload_start_time=7)
    for s, t in e.got:
        x = next((v for (a, w), v in s.mem.items() if isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", e.K) and deep(a) == ["overload_start_time"]), 7)
        if x is not None and x != NOW and isinstance(x, int):
            ctx.violation("overload-start", "overload: the moment the key was pressed is not noted", where=m.loc(t), path=trace_str(s.trace))
    for since in (0, 1, T - 1, T, T + 1, 2 ** 31 + 1):
        e = press(ctx, en["OP_OVERLOAD_IDLE_TIMEOUT"], (4, 5, T), last_simple_key_time=NOW - since)
        want = ("aux", 4 if since < T else 5)
        for s, t in e.got:
            did = [x[1] for x in e.get(s, "does")]
            path = dict(where=m.loc(t), path=trace_str(s.trace))
            if len(did) != 1:
                ctx.violation("idle-none", f"overloadi: {len(did)} actions are carried out", **path)
            elif did[0] != want:
                if isinstance(did[0], tuple):
                    ctx.violation("idle-action", f"overloadi: {since} ms after the last symbol, with a limit of {T} ms, action {1 if did[0][1] == 4 else 2} is carried out", **path)
                else:
                    ctx.undecide("overloadi", "which action is carried out is not known")
        if not e.got:
            ctx.undecide("overloadi", "no path ends")


def notes(ctx):
    """Every press notes the key struck last; every symbol notes its time."""
    m = ctx.mod
    if not hasattr(ctx, "desc"):
        roles(ctx)
    en = ops(m)
    SHIFT = m.macro("MOD_SHIFT")
    for name, op in sorted(en.items()):
        for pressed, args in ((1, (1, 0, 0)), (0, (1, 0, 0)), (1, (1, SHIFT, 0))) if name == "OP_KEYSEQUENCE" else ((1, (1, 2, 3)), (0, (1, 2, 3))):
            e = press(ctx, op, args, pressed, OWN, last_pressed_code=OTHER)
            for s, t in e.got:
                path = dict(where=m.loc(t), path=trace_str(s.trace))
                c = next((v for (a, w), v in s.mem.items() if isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", e.K) and deep(a) == ["last_pressed_code"]), OTHER)
                if pressed and isinstance(c, int) and c != OWN and op:
                    ctx.violation("last-key", f"{name}: pressing its key is not noted as the key struck last", **path)
                if not pressed and isinstance(c, int) and c != OTHER:
                    ctx.violation("last-key", f"{name}: releasing its key changes the key struck last", **path)
                x = next((v for (a, w), v in s.mem.items() if isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", e.K) and deep(a) == ["last_simple_key_time"]), None)
                if name == "OP_KEYSEQUENCE" and pressed:
                    if x is None or isinstance(x, int) and x != NOW:
                        ctx.violation("symbol", "the time of a symbol struck %s shift is not noted" % ("with" if args[1] else "without"), **path)
                elif name == "OP_KEYSEQUENCE":
                    pass
                elif x is not None and isinstance(x, int) and x == NOW:
                    ctx.violation("symbol", f"{name}: an action counts as a symbol", **path)


def run(ctx):
    ctx.rule("each deferring action sets up its key, its moment, its tap and its hold", setups)
    ctx.rule("what makes an undecided key a tap or a hold is what the manual says", table)
    ctx.rule("overload and overloadi decide by the key struck last and by the time held or idle", immediate)
    ctx.rule("every press notes the key struck last, every symbol its time", notes)
