"""C10: deadlines. Deadlines are the fields of the engine which it compares with the current time to find out that something waited for
is due. On every path of the engine step and of every action which stores a deadline, or starts waiting for a chord, that very moment is
scheduled; a deadline counts as due at the moment itself. The timer table keeps every deadline it is given (unless it is full, when only a
later one gives way), loses none of the future ones, and yields the earliest (relational simulation over tables of up to three arbitrary
deadlines). The result is passed on unchanged through the engine, the daemon and the main loop to poll: a pending timeout never turns
into waiting for ever, and one that elapsed is delivered."""
from seq import *

ASSUMPTIONS = ["fewer than 64 deadlines are pending at a time", "the clock does not run backwards and times are positive"]


def lin(av):
    """Linear normal form: ({term: coefficient}, constant)."""
    av = canon(av)
    if isinstance(av, int):
        return {}, av
    if av[0] == "+":
        t, c = lin(av[1])
        return t, c + av[2]
    if av[0] == "op" and av[1] in ("add", "sub"):
        t, c = lin(av[2])
        u, d = lin(av[3])
        k = 1 if av[1] == "add" else -1
        t = dict(t)
        for x, n in u.items():
            t[x] = t.get(x, 0) + k * n
        return {x: n for x, n in t.items() if n}, c + k * d
    if av[0] == "op" and av[1] == "mul" and isinstance(av[3], int):
        t, c = lin(av[2])
        return {x: n * av[3] for x, n in t.items()}, c * av[3]
    return {av: 1}, 0


def nf(l):
    return tuple(sorted(l[0].items(), key=repr)), l[1]


def same(a, b):
    return set(a[0]) == set(b[0]) and a[1] == b[1]


def minus(a, b):
    t = dict(a[0])
    for x, n in b[0].items():
        t[x] = t.get(x, 0) - n
    return {x: n for x, n in t.items() if n}, a[1] - b[1]


def lastf(a):
    return a[2][-1] if isinstance(a, tuple) and a[0] == "a" and a[2] else None


def kfield(ms, o):
    """The (structure, field) path of an address inside struct keyboard, or None."""
    p = ms._addr(o)[1]
    return tuple(p) if any(x[0] == "keyboard" for x in p) else None


def timers(ctx):
    """(schedule, earliest): the function which adds a deadline to the table, the one which yields the earliest."""
    m = ctx.mod
    ms = ModSets(m)
    ev = event_fn(m)
    sch, calc = [], []
    for f in m.fns.values():
        if f.file != KFILE:
            continue
        for i in f.insts():
            if i.op == "store" and ("keyboard", "timeouts") in ms._addr(i.ops[1])[1] and isinstance(strip(i.ops[0]), Arg):
                sch.append(f)
    for i in ev.insts():
        if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
            g = m.fns[i.callee.name]
            if g.file == KFILE and g.ret.k == "int" and g.ret.a == ev.ret.a and g not in calc and \
                    any(j.op == "load" and ("keyboard", "timeouts") in ms._addr(j.ops[0])[1] for h in closure_fns(m, g) for j in h.insts()):
                if g not in (descriptor_fn(m), ev):
                    calc.append(g)
    sch = list(dict.fromkeys(sch))
    return ctx.need(len(sch) == 1 and sch[0], "the function which schedules a wake-up is not found"), \
        ctx.need(len(calc) == 1 and calc[0], "the function which computes the earliest wake-up is not found")


def closure_fns(m, g):
    r = []
    work = [g]
    while work:
        f = work.pop()
        if f in r or f.file != KFILE:
            continue
        r.append(f)
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
                h = m.fns[i.callee.name]
                if h.file == KFILE and len(list(h.blocks)) < 40:
                    work.append(h)
    return [x for x in r if x.src not in ("process_event", "process_descriptor")]


# ------------------------------------------------------------------ the table

class Table(Seq):
    split_selects = True

    def on_branch(self, s, t, c, want):
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp":
            p, a, b = c[1] if want else NEG[c[1]], canon(c[2]), canon(c[3])
            for x, y, q in ((a, b, p), (b, a, SWAP[p])):
                self.fact(s, x, q, y)

    def fact(self, s, x, q, y):
        pass


class Sched(Table):
    """tags: ('at', idx) the new deadline is stored there ('later', idx) ('inc',) ('notfull',) ('full',)"""

    def nr(self, v):
        v = canon(v)
        while v[0] == "+" if isinstance(v, tuple) else False:
            v = v[1]
        return isinstance(v, tuple) and v[0] == "v" and isinstance(v[1], Inst) and v[1].op == "load" and ModSets(self.mod)._addr(v[1].ops[0])[1][-1:] == [("keyboard", "nr_timeouts")]

    def fact(self, s, x, q, y):
        if self.nr(x) and isinstance(y, int):
            if (q[1:] == "ge" and y >= self.n) or (q[1:] == "gt" and y >= self.n - 1) or (q == "eq" and y == self.n):
                self.put(s, ("full",))
        if x == self.t and q in ("slt", "sle", "ult", "ule"):
            k = self.tableload(y)
            if k is not None:
                self.put(s, ("later", k))

    def tableload(self, y):
        if isinstance(y, tuple) and y[0] == "v" and isinstance(y[1], Inst) and y[1].op == "load":
            return self.loads.get(y[1])
        return None

    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            if hasfield(a, ("keyboard", "timeouts")):
                self.loads[ins] = elem(a, ("keyboard", "timeouts"))

    def on_store(self, s, ins, addr, v):
        if hasfield(addr, ("keyboard", "timeouts")):
            self.events += 1
            k = elem(addr, ("keyboard", "timeouts"))
            if canon(v) == self.t:
                if self.nr(k) and canon(k)[0] == "v" and ("inc",) in s.auto:
                    pass
                self.put(s, ("at", k))
                if not self.nr(k) and (("full",) not in s.auto or not any(x[1] == k for x in self.get(s, "later"))):
                    self.report(s, ins, "evict", "a pending deadline is given up although there is room for it, or for one which is not known to be earlier")
            else:
                self.report(s, ins, "other", "something else than the given deadline is stored")
        elif lastf(addr) == ("f", "keyboard", "nr_timeouts"):
            self.events += 1
            if isinstance(v, tuple) and v[0] == "+" and v[2] == 1 and self.nr(v):
                self.put(s, ("inc",))
            else:
                self.report(s, ins, "count", "the number of pending deadlines is not kept")

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        Seq.on_exit(self, s, t)
        at = self.get(s, "at")
        app = [x for x in at if self.nr(x[1]) and canon(x[1])[0] == "v"]
        if app and ("inc",) not in s.auto:
            self.report(s, t, "uncounted", "a deadline is stored but not counted")
        if ("inc",) in s.auto and not app:
            self.report(s, t, "hole", "the deadline is not stored in the place which is counted")
        if not at and ("full",) not in s.auto:
            self.report(s, t, "dropped", "a deadline is dropped although there is room for it")


class Earliest(Table):
    """Over a table of k arbitrary deadlines. tags ('le', a, b) ('lt', a, b)"""

    def seed(self, s):
        self.kb = next(a for a in self.fn.args if a.ty.k == "ptr")
        self.time = ("v", next(a for a in self.fn.args if a.ty.k == "int"))
        root = ("v", self.kb)
        s.mem[(("a", root, (("f", "keyboard", "nr_timeouts"),)), self.w)] = self.k
        for j in range(self.k):
            s.mem[(("a", root, self.slot(j)), 8)] = ("v", self.T[j])
            s.facts[("v", self.T[j])] = (1, INF, frozenset())
        s.facts[self.time] = (1, INF, frozenset())

    @staticmethod
    def slot(j):
        return (("f", "keyboard", "timeouts"),) + ((("x", j),) if j else ())

    def term(self, x):
        x = canon(x)
        return x == self.time or isinstance(x, tuple) and x[0] == "v" and x[1] in self.T

    def fact(self, s, x, q, y):
        d = minus(lin(x), lin(y))           # x q y  <=>  d q 0
        ts = [t for t in d[0] if self.term(t)]
        if len(d[0]) == 2 and len(ts) == 2 and sorted(d[0].values()) == [-1, 1] and d[1] == 0:
            a = next(t for t, n in d[0].items() if n == 1)
            b = next(t for t, n in d[0].items() if n == -1)
        else:
            return
        if q in ("slt", "ult"):
            self.put(s, ("lt", a, b))
        elif q in ("sle", "ule"):
            self.put(s, ("le", a, b))
        elif q == "eq":
            self.put(s, ("le", a, b), ("le", b, a))

    def known(self, s, a, b):
        """'lt', 'le' or None for a, b"""
        if a == b:
            return "le"
        edges = self.get(s, "lt") + self.get(s, "le")
        best = {a: "le"}
        work = [a]
        while work:
            x = work.pop()
            for e in edges:
                if e[1] == x:
                    r = "lt" if "lt" in (e[0], best[x]) else "le"
                    if best.get(e[2]) != "lt" and best.get(e[2]) != r:
                        best[e[2]] = r
                        work.append(e[2])
        return best.get(b)

    def on_branch(self, s, t, c, want):
        Table.on_branch(self, s, t, c, want)
        if self.known(s, self.time, self.time) == "lt":
            return False
        for e in self.get(s, "lt") + self.get(s, "le"):
            r = self.known(s, e[2], e[1])
            if r and "lt" in (r, e[0]):
                return False        # contradiction

    def extra_key(self, s, b):
        return (tuple(sorted((p.uid, repr(v)) for p, v in s.env.items() if isinstance(p, Inst) and p.op == "phi")),
                tuple(sorted(repr(x) for x in s.mem.items())))

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        Seq.on_exit(self, s, t)
        root = ("v", self.kb)
        T = [("v", x) for x in self.T[:self.k]]
        future = [x for x in T if self.known(s, x, self.time) is None]
        n = s.mem.get((("a", root, (("f", "keyboard", "nr_timeouts"),)), self.w))
        if not isinstance(n, int):
            self.report(s, t, "count", "the number of pending deadlines is lost")
            return
        kept = [canon(s.mem.get((("a", root, self.slot(j)), 8), 0)) for j in range(n)]
        for x in future:
            if x not in kept:
                self.report(s, t, "lost", "a deadline which is still in the future is dropped")
                return
        v = self.val(s, t.ops[0]) if t.ops else None
        if v is None:
            return
        if not future:
            if kept and self.const(s, v) != 0:
                return      # those kept are overdue, waking up early is harmless
            if self.rng(s, v)[0] < 0:
                self.report(s, t, "value", "the time to wait is negative")
            return
        d = minus(lin(v), minus(({}, 0), lin(self.time)))     # v + time
        if d[1] > 0 or not (len(d[0]) == 1 and list(d[0].values()) == [1] and next(iter(d[0])) in future):
            if d[1] <= 0 and not d[0] and self.rng(s, v)[0] >= 1:
                return
            self.report(s, t, "value", "the time to wait is not the time left until a pending deadline")
            return
        e = next(iter(d[0]))
        for x in future:
            if self.known(s, e, x) is None:
                self.report(s, t, "earliest", "the time to wait is not that of the earliest pending deadline")
                return


def table(ctx):
    m = ctx.mod
    sch, calc = timers(ctx)
    n = m.sizeof(m.fieldty("keyboard", "timeouts")) // 8
    ctx.count("timers", n)
    g = inline(m, sch, lambda c, ch: c.file == KFILE)
    e = Sched(m, g)
    e.n, e.loads = n, {}
    ints = [a for a in g.args if a.ty.k == "int" and a.ty.a == 64]
    e.t = ("v", ints[-1])
    e.run()
    ctx.need(e.exits, "scheduling never ends")
    e.flush(ctx, "schedule:")
    g = inline(m, calc, lambda c, ch: c.file == KFILE)
    for k in range(4):
        e = Earliest(m, g)
        e.k, e.T, e.w = k, [Sym("T%d" % j, 64) for j in range(k)], m.sizeof(m.fieldty("keyboard", "nr_timeouts"))
        cfg = CFG(g)
        phis = [p for h in cfg.loops for p in h.insts if p.op == "phi"]
        for p in phis:
            e.inductive.discard(p)
        e.unrolled = tuple(phis)
        e.run()
        ctx.need(e.exits, "the earliest deadline is never found")
        e.flush(ctx, "earliest:")


# ------------------------------------------------------------------ deadlines of the engine

def compares(m):
    """Comparisons of the current time with deadlines: yields (ins, F, X, due-when-true, includes-equality); X is None for plain deadlines."""
    ms = ModSets(m)
    ev = event_fn(m)

    def istime(v):
        v = strip(v)
        return isinstance(v, Arg) and v.ty.k == "int" and v.ty.a == 64

    def field(v):
        v = strip(v)
        if isinstance(v, Inst) and v.op == "load":
            p = kfield(ms, v.ops[0])
            if p and p[-1] != ("keyboard", "timeouts") and ("keyboard", "timeouts") not in p:
                return p
        return None
    for f in m.fns.values():
        if f.file != KFILE:
            continue
        for i in f.insts():
            if i.op != "icmp" or i.pred in ("eq", "ne"):
                continue
            for a, b, p in ((i.ops[0], i.ops[1], i.pred), (i.ops[1], i.ops[0], SWAP[i.pred])):
                if istime(a) and field(b):
                    yield f, i, field(b), None, p
                x = strip(a)
                if isinstance(x, Inst) and x.op == "sub" and istime(x.ops[0]) and field(x.ops[1]):
                    yield f, i, field(x.ops[1]), b, p


WAIT = {"CHORD_PENDING_DISAMBIGUATION", "CHORD_PENDING_HOLD_TIMEOUT"}


class Wait(Seq):
    """tags ('due', field, value) ('sched', value) ('state', n) ('since', value) ('seen', root) ('replayed', which)"""
    split_selects = True
    op = None

    def seed(self, s):
        if self.op is not None:
            s.env[self.parg] = self.pressed
            s.mem[(("a", ("v", self.darg), (("f", "descriptor", "op"),)), 4)] = self.op
        elif self.state is not None:
            self.k = next(a for a in self.fn.args if a.ty.k == "ptr")
            s.mem[(self.stateaddr(), 4)] = self.state

    def stateaddr(self):
        return ("a", ("v", self.k), self.statepath)

    def _mayalias(self, a, b):
        if self.op is not None:
            return DescEngine._mayalias(self, a, b)
        return Seq._mayalias(self, a, b)

    def fpath(self, a):
        return tuple((e[1], e[2]) for e in a[2] if e[0] == "f") if isinstance(a, tuple) and a[0] == "a" else ()

    def on_store(self, s, ins, addr, v):
        p = self.fpath(addr)
        if p in self.deadlines:
            self.events += 1
            self.drop(s, lambda x: x[0] == "due" and x[1] == p)
            if self.const(s, v) != 0:
                self.put(s, ("due", p, nf(lin(v))))
        if p == self.sincefield:
            self.drop(s, lambda x: x[0] == "since")
            self.put(s, ("since", nf(lin(v))))
        if p == self.statefield:
            self.events += 1
            self.drop(s, lambda x: x[0] == "state")
            self.put(s, ("state", self.const(s, v)))

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is self.sched:
            self.events += 1
            self.put(s, ("sched", nf(lin(args[-1]))))
        elif f is not None and f.src == "kbd_process_events":
            self.put(s, ("replayed", "chord" if any(x[1] == self.resolving for x in self.get(s, "state")) else "pending"))
        elif f is self.stepf and self.const(s, args[1]) == 0:
            self.drop(s, lambda x: x[0] == "replayed")

    def after_inst(self, s, ins):
        # what the nested step or the replay leaves behind is its own business
        if ins.op == "call" and isinstance(ins.callee, GRef) and self.mod.fns.get(ins.callee.name) is not None:
            f = self.mod.fns[ins.callee.name]
            if f is self.stepf or f.src == "kbd_process_events" or f is self.desc:
                self.drop(s, lambda x: x[0] == "state" and x[1] != self.resolving)

    def on_branch(self, s, t, c, want):
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp" and self.op is None:
            p, a, b = c[1] if want else NEG[c[1]], c[2], c[3]
            for x, y, q in ((a, b, p), (b, a, SWAP[p])):
                d = minus(lin(x), lin(y))
                if q in ("sge", "uge"):
                    self.put(s, ("ge", nf(d)))

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        Seq.on_exit(self, s, t)
        sch = {x[1] for x in self.get(s, "sched")}
        for x in self.get(s, "due"):
            if not any(same(x[2], y) for y in sch):
                self.report(s, t, "due:" + x[1][-1][1], "a deadline (" + x[1][-1][1] + ") is set without arranging to be woken for it")
        for x in self.get(s, "state"):
            if x[1] in self.waits:
                since = self.get(s, "since")
                old = self.oldsince(s)
                base = since[0][1] if since else old
                ok = False
                for w in sch:
                    if base is None:
                        break
                    d = minus((dict(w[0]), w[1]), (dict(base[0]), base[1]))
                    # deadline = base + limit
                    for lim in self.waits[x[1]]:
                        ls = [k for k in d[0] if self.isfield(k, lim)]
                        if len(ls) == 1 and d[0][ls[0]] == 1:
                            r = dict(d[0])
                            del r[ls[0]]
                            r = nf((r, d[1]))
                            if not r[0] and r[1] == 0 or any(same(y[1], r) for y in self.get(s, "ge")):
                                ok = True
                if not ok:
                    self.report(s, t, "chord", "the engine starts to wait for a chord without arranging to be woken when its time is over")
        if self.op is None:
            for x in self.get(s, "replayed"):
                self.report(s, t, "overdue:" + x[1], "deadlines which pass while withheld events are replayed are not woken for")

    def isfield(self, k, path):
        k = canon(k)
        return isinstance(k, tuple) and k[0] == "v" and isinstance(k[1], Inst) and k[1].op == "load" and tuple(ModSets(self.mod)._addr(k[1].ops[0])[1])[-len(path):] == path

    def oldsince(self, s):
        for (a, w), v in s.mem.items():
            if self.fpath(a) == self.sincefield:
                return nf(lin(v))
        for x in self.get(s, "ge"):
            for k, n in x[1][0]:
                if isinstance(k, tuple) and k[0] == "v" and isinstance(k[1], Inst) and k[1].op == "load" and tuple(ModSets(self.mod)._addr(k[1].ops[0])[1]) == self.sincefield:
                    return ((k, 1),), 0
        return None


def discover(ctx):
    """Deadlines, and what the chord states wait for."""
    m = ctx.mod
    dl, since, bad = {}, {}, []
    for f, i, F, X, p in compares(m):
        if X is None:
            dl.setdefault(F, []).append((f, i, p))
        else:
            since.setdefault(F, []).append((f, i, X, p))
    return dl, since


def limits(ctx, m):
    """For each waiting state of a chord: the configuration fields its age is compared with, and the age field."""
    ms = ModSets(m)
    # a comparison of an age belongs to the states from whose case it is reachable
    _, since = discover(ctx)
    en = {k: v for k, v in (m.enum("CHORD_INACTIVE") is not None and m._enums or {}).items() if k.startswith("CHORD_")}
    return since, en


def age(ctx):
    m = ctx.mod
    ms = ModSets(m)
    dl, since = discover(ctx)
    sf = None
    for F in since:
        if ("keyboard", "chord") in F:
            sf = F
    m.enum("CHORD_INACTIVE")
    en = {k: v for k, v in m._enums.items() if k.startswith("CHORD_")}
    return dl, since, ctx.need(sf, "the age of a chord is not compared with anything"), en


class Age(Seq):
    """Which limits the age of a chord is compared with in a given waiting state, on a wake-up."""
    split_selects = True

    def seed(self, s):
        self.k = next(a for a in self.fn.args if a.ty.k == "ptr")
        s.mem[(("a", ("v", self.k), self.statepath), 4)] = self.state
        s.env[self.carg] = 0

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is self.stepf or f is not None and f.src == "kbd_process_events":
            self.put(s, ("past",))

    def on_branch(self, s, t, c, want):
        if ("past",) in s.auto:
            return
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp":
            d = minus(lin(c[2]), lin(c[3]))
            loads = {k: n for k, n in d[0].items() if k[0] == "v" and isinstance(k[1], Inst) and k[1].op == "load"}
            ms = ModSets(self.mod)
            paths = {k: tuple(ms._addr(k[1].ops[0])[1]) for k in loads}
            if any(p == self.sincefield for p in paths.values()):
                for k, p in paths.items():
                    if p[-1][0] == "config":
                        self.seen.add((p[-1:], t, c[1] if d[0][k] < 0 else SWAP[c[1]]))


def statefield(m):
    """(path of names, path of the address) of the chord state."""
    ms = ModSets(m)
    for f in m.fns.values():
        if f.file == KFILE:
            for i in f.insts():
                if i.op == "store":
                    p = ms._addr(i.ops[1])[1]
                    if ("keyboard", "chord") in p and p[-1][1] == "state":
                        return tuple(p)
    return None


def stepfn(ctx):
    m = ctx.mod
    d, ev = descriptor_fn(m), event_fn(m)
    sch, calc = timers(ctx)
    stop = {d, ev, sch, calc, m.fn("kbd_process_events")}

    def touches(f):
        return any(i.op == "call" and isinstance(i.callee, GRef) and m.fns.get(i.callee.name) in stop for i in f.insts()) or \
            any(i.op == "store" and ("keyboard", "chord") in ModSets(m)._addr(i.ops[1])[1] for i in f.insts())
    want = {f for f in m.fns.values() if f.file == KFILE and f not in stop and touches(f)}
    g = inline(m, ev, lambda c, ch: c in want)
    return g, sch, d, ev


def chordlimits(ctx, g, ev, d, sf, stf, en):
    """state -> configuration fields that end it"""
    m = ctx.mod
    out = {}
    for name, v in en.items():
        e = Age(m, g)
        e.sincefield, e.statepath, e.state, e.stepf = sf, tuple(("f",) + x for x in stf), v, ev
        e.carg = [a for a in g.args if a.ty.k == "int"][0]
        e.seen = set()
        e.run()
        for p, t, pred in e.seen:
            out.setdefault(v, set()).add(p)
            if pred not in ("sge", "slt", "uge", "ult"):
                ctx.violation("due:chord", "a chord is not due yet at the very moment its time is over, although nothing wakes the engine later", m.where(t))
    return out


def setup(e, ctx, dl, sf, stf, sch, d, ev, waits, en):
    e.deadlines = set(dl)
    e.sincefield, e.statefield, e.statepath = sf, stf, tuple(("f",) + x for x in stf)
    e.sched, e.desc, e.stepf = sch, d, ev
    e.waits = waits
    e.resolving = en.get("CHORD_RESOLVING")
    e.state = None


def waiting(ctx):
    m = ctx.mod
    dl, since, sf, en = age(ctx)
    ctx.count("deadlines", len(dl))
    ctx.need(len(dl) >= 3, "the deadlines of the engine are not found")
    for F, uses in dl.items():
        for f, i, p in uses:
            if p not in ("sge", "slt", "uge", "ult"):
                ctx.violation("equality:" + F[-1][1], "a deadline is not due yet at the very moment it names, although nothing wakes the engine later", m.where(i))
    stf = ctx.need(statefield(m), "the state of a chord is not found")
    g, sch, d, ev = stepfn(ctx)
    waits = chordlimits(ctx, g, ev, d, sf, stf, en)
    ctx.need(len(waits) >= 2, "the states in which a chord waits are not found")
    ctx.count("chord_waits", len(waits))
    for v in sorted(en.values()):
        e = Wait(m, g)
        setup(e, ctx, dl, sf, stf, sch, d, ev, waits, en)
        e.state = v
        e.run()
        e.flush(ctx, "step:")


def action(ctx, item):
    m = ctx.mod
    name, op, pressed = item
    dl, since, sf, en = age(ctx)
    stf = statefield(m)
    sch, calc = timers(ctx)
    d, ev = descriptor_fn(m), event_fn(m)
    stop = {d, ev, sch, calc, m.fn("kbd_process_events")}
    g = inline(m, d, lambda c, ch: c.file == KFILE and c not in stop and not CFG(c).loops)
    e = Wait(m, g)
    setup(e, ctx, dl, sf, stf, sch, d, ev, {}, en)
    de = DescEngine(m, g, ModSets(m), op, pressed)
    e.darg, e.parg = de.roles()
    e.op, e.pressed = op, pressed
    e.run()
    ctx.count("actions")
    e.flush(ctx, f"{name}:")


def actions(ctx):
    ctx.pmap(action, [(k, v, p) for k, v in sorted(ops(ctx.mod).items()) if k != "OP_NULL" for p in (1, 0)])


# ------------------------------------------------------------------ passing it on

class Step(Seq):
    def on_other(self, s, ins, args, n):
        if self.mod.fns.get(n) is self.calc:
            self.drop(s, lambda x: x[0] == "r")
            if canon(args[-1]) != self.time:
                self.report(s, ins, "time", "the time left is computed for another moment than the current one")
        elif self.mod.fns.get(n) is not None and self.mod.fns[n].file == KFILE:
            self.drop(s, lambda x: x[0] == "r")

    def after_inst(self, s, ins):
        if ins.op == "call" and isinstance(ins.callee, GRef) and self.mod.fns.get(ins.callee.name) is self.calc:
            self.events += 1
            self.put(s, ("r", s.env[ins]))

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        Seq.on_exit(self, s, t)
        v = canon(self.val(s, t.ops[0]))
        if not any(canon(x[1]) == v for x in self.get(s, "r")):
            self.report(s, t, "result", "the engine step does not yield the time until the earliest deadline")


class Feed(Seq):
    """kbd_process_events. tags ('last', result, time) ('before', lin) the next event is earlier than this moment"""
    split_selects = True

    def istimestamp(self, v):
        v = canon(v)
        return isinstance(v, tuple) and v[0] == "v" and isinstance(v[1], Inst) and v[1].op == "load" and ModSets(self.mod)._addr(v[1].ops[0])[1][-1:] == [("key_event", "timestamp")]

    def on_branch(self, s, t, c, want):
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp":
            p, a, b = c[1] if want else NEG[c[1]], c[2], c[3]
            for x, y, q in ((a, b, p), (b, a, SWAP[p])):
                if q in ("sgt", "ugt") and any(z[1] == canon(x) for z in self.get(s, "due")):
                    self.put(s, ("before", canon(x), canon(y)))
        for x in self.get(s, "last"):
            if self.rng(s, x[1])[1] <= 0:
                self.put(s, ("none", x[1]))

    def step(self, s, ins):
        # the events handed in stay as they are while they are processed
        keep = {k: v for k, v in s.mem.items() if lastf(k[0]) == ("f", "key_event", "timestamp")} if ins.op == "call" else {}
        due = False
        if ins.op == "add":
            a, b = lin(self.val(s, ins.ops[0])), lin(self.val(s, ins.ops[1]))
            for x in self.get(s, "last"):
                if x[2] is not None:
                    d = minus(minus((x[2] and (dict(x[2][0]), x[2][1])), minus(({}, 0), lin(x[1]))), minus(a, minus(({}, 0), b)))
                    due = due or not d[0] and d[1] == 0
        Seq.step(self, s, ins)
        if due:
            if not any(x[2] is None for x in self.get(s, "last")):
                r = self.get(s, "last")[0][1]
                self.drop(s, lambda x: x[0] in ("last", "due", "before"))
                s.env[ins] = ("v", ins)
                self.put(s, ("last", r, None), ("due", ("v", ins)))
        for k, v in keep.items():
            s.mem.setdefault(k, v)

    def on_other(self, s, ins, args, n):
        if self.mod.fns.get(n) is self.stepf:
            code, time = args[1], args[-1]
            for x in self.get(s, "last"):
                due = {y[1] for y in self.get(s, "due")}
                if self.const(s, code) == 0:
                    if canon(time) not in due:
                        self.report(s, ins, "moment", "a timeout between two events is not delivered for the moment it was asked for")
                elif not any(y[1] in due and (y[2] == canon(time) or self.istimestamp(y[2])) for y in self.get(s, "before")) and ("none", x[1]) not in s.auto:
                    self.report(s, ins, "skipped", "an event is processed before a timeout which is due earlier")
            self.drop(s, lambda x: x[0] in ("last", "before", "none", "due"))

    def after_inst(self, s, ins):
        if ins.op == "call" and isinstance(ins.callee, GRef) and self.mod.fns.get(ins.callee.name) is self.stepf:
            self.events += 1
            t = self.val(s, ins.ops[-1])
            self.drop(s, lambda x: x[0] in ("last", "before", "none", "due"))
            self.put(s, ("last", canon(s.env[ins]), nf(lin(t))))

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        Seq.on_exit(self, s, t)
        v = canon(self.val(s, t.ops[0]))
        last = self.get(s, "last")
        if last and not any(x[1] == v for x in last):
            self.report(s, t, "result", "the time until the earliest deadline is lost after a batch of events")


def passing(ctx):
    m = ctx.mod
    sch, calc = timers(ctx)
    ev = event_fn(m)
    e = Step(m, ev)
    e.calc = calc
    e.time = ("v", [a for a in ev.args if a.ty.k == "int"][-1])
    e.run()
    ctx.need(e.exits, "the engine step never ends")
    e.flush(ctx, "step:")
    k = m.fn("kbd_process_events")
    g = inline(m, k, lambda c, ch: c.file == KFILE and c not in (ev, calc, sch) and not c.src == "process_descriptor")
    e = Feed(m, g)
    e.stepf = ev
    e.run()
    ctx.need(e.exits and e.events, "events are not processed")
    e.flush(ctx, "batch:")


def dispatcher(m):
    """The function registered with the main loop."""
    out = []
    for f, i in callers(m, "evloop"):
        for o in i.ops:
            if isinstance(o, GRef) and o.name in m.fns and m.fns[o.name].file == "src/daemon.c":
                out.append(m.fns[o.name])
    return out[0] if len(set(out)) == 1 else None


# ------------------------------------------------------------------ the daemon and the main loop

def num(o):
    return o.v if isinstance(o, Const) else 0 if isinstance(o, Zero) else o


class Order:
    """Order abstraction: the values derived from the time left are only told apart by their place relative to nothing (0), the past (N),
    the time left until the deadline being followed (S: positive, not later) and beyond (L). U: computed in a way that is not understood.
    All paths over these classes are enumerated; every other condition may go either way."""
    limit = 200000

    def __init__(self, m, fn):
        self.m, self.fn, self.ms = m, fn, ModSets(m)
        self.bad = []
        self.n = self.hits = 0

    def prep(self):
        flow = set(self.sources())
        users = {}
        for i in self.fn.insts():
            for o in i.ops:
                users.setdefault(o, []).append(i)
            if i.op == "phi":
                for v, _ in i.incoming:
                    users.setdefault(v, []).append(i)
        work = list(flow)
        while work:
            x = work.pop()
            for u in users.get(x, ()):
                if u in flow or u.ty.k != "int":
                    continue
                if u.op in ("phi", "select", "trunc", "sext", "zext", "freeze", "sub", "add", "icmp", "and", "or", "xor") or \
                        u.op == "call" and isinstance(u.callee, GRef) and u.callee.name.startswith(("llvm.smin", "llvm.smax", "llvm.umin", "llvm.umax")):
                    flow.add(u)
                    work.append(u)
        self.flow = flow
        live = {b: set() for b in self.fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.fn.blocks):
                l = set()
                for sx in self.succ(b):
                    l |= live[sx]
                    for i in sx.insts:
                        if i.op == "phi":
                            l |= {v for v, p in i.incoming if p is b and v in flow}
                        else:
                            break
                for i in reversed(b.insts):
                    l.discard(i)
                    if i.op != "phi":
                        l |= {o for o in i.ops if o in flow}
                if l != live[b]:
                    live[b] = l
                    ch = True
        self.live = live

    def succ(self, b):
        t = b.insts[-1]
        return [x for _, x in self.targets(t)]

    @staticmethod
    def targets(t):
        if t.op == "br":
            if len(t.targets) == 1:
                return [(None, t.targets[0])]
            return [(True, t.targets[0]), (False, t.targets[1])]
        if t.op == "switch":
            return Order.cases(t)
        return []

    @staticmethod
    def cases(t):
        return [(k, x) for k, x in t.cases] + [("default", t.targets[0])]

    def cls(self, env, o):
        o = num(o)
        if isinstance(o, int):
            return "N" if o < 0 else "0" if o == 0 else "S" if o == 1 else "C"
        return env.get(o, "U")

    ORD = "N0SL"

    def icmp(self, p, x, y):
        """possible outcomes"""
        if "U" in (x, y) or not isinstance(x, str) or not isinstance(y, str):
            return {True, False}
        if "C" in (x, y) and set((x, y)) & set("CSL") == set((x, y)):
            return {True, False}
        x, y = x.replace("C", "L"), y.replace("C", "L")
        a, b = self.ORD.index(x), self.ORD.index(y)
        if x == y and x != "0":
            return {True, False}
        r = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b,
             "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}
        return {r[p]}

    def values(self, env, tags, i):
        """[(value, tags)] of one flow instruction"""
        op = i.op
        if op in ("trunc", "sext", "zext", "freeze"):
            return [(self.cls(env, i.ops[0]), tags)]
        if op == "icmp":
            x, y = self.cls(env, i.ops[0]), self.cls(env, i.ops[1])
            if num(i.ops[1]) == 1 and i.pred in ("sge", "slt", "uge", "ult") and x != "U":
                return [((x in "SL") == (i.pred in ("sge", "uge")), tags)]
            if num(i.ops[1]) == -1 and i.pred in ("sgt", "sle") and x != "U":
                return [((x != "N") == (i.pred == "sgt"), tags)]
            return self.compared(env, tags, i, x, y)
        if op == "select":
            c = self.cls(env, i.ops[0])
            return [(self.cls(env, o), tags) for o in ([i.ops[1]] if c is True else [i.ops[2]] if c is False else i.ops[1:])]
        if op in ("and", "or", "xor") and i.ty.a == 1:
            x, y = [bool(num(o)) if isinstance(num(o), int) else env.get(o) for o in i.ops]
            if op == "xor":
                return [(x ^ y if isinstance(x, bool) and isinstance(y, bool) else "U", tags)]
            z = op == "or"
            return [(z if x is z or y is z else (not z) if x is (not z) and y is (not z) else "U", tags)]
        if op == "call":
            x, y = self.cls(env, i.ops[0]), self.cls(env, i.ops[1])
            if "U" in (x, y):
                return [("U", tags)]
            f = min if "min" in i.callee.name else max
            x, y = x.replace("C", "L"), y.replace("C", "L")
            return [(f(x, y, key=self.ORD.index), tags)]
        return [("U", tags)]

    def compared(self, env, tags, i, x, y):
        return [(r, tags) for r in sorted(self.icmp(i.pred, x, y))]

    def run(self):
        self.prep()
        start = (self.fn.blocks[0], (), self.begin())
        seen, work = {start: None}, [start]
        while work:
            self.cur = work.pop()
            b, e, st = self.cur
            self.n += 1
            if self.n > self.limit:
                raise RuntimeError("too many states")
            for env, st2 in self.block(b, dict(e), st):
                t = b.insts[-1]
                if t.op == "ret":
                    self.ret(env, st2, t)
                    continue
                c = self.cls(env, t.ops[0]) if t.op == "br" and len(t.targets) == 2 else None
                if c is None and t.op == "switch" and t.ops[0] in self.flow:
                    c = None
                for w, x in self.targets(t):
                    if isinstance(c, bool) and w is not c:
                        continue
                    st3 = self.edge(st2, b, x, t, w)
                    ne = {v: env[v] for v in self.live[x] if v in env}
                    for i in x.insts:
                        if i.op != "phi":
                            break
                        if i in self.flow:
                            ne[i] = self.phi(env, i, b)
                    k = (x, tuple(sorted(ne.items(), key=lambda q: q[0].uid)), st3)
                    if k not in seen:
                        seen[k] = (self.cur, t, w)
                        work.append(k)
        self.seen = seen

    def trace(self, k):
        out = []
        while k is not None and self.seen.get(k) is not None:
            k, t, w = self.seen[k]
            if w is not None and t.dbg:
                x = self.m.where(t).split(" ")[0].split("/")[-1]
                out.append("%s=%s" % (x, w if not isinstance(w, bool) else "TF"[not w]))
        return " > ".join(reversed(out[:25]))

    def phi(self, env, i, b):
        for v, p in i.incoming:
            if p is b:
                if i.ty.a == 1 and isinstance(num(v), int):
                    return bool(num(v))
                return self.cls(env, v)
        return "U"

    def block(self, b, env, st):
        states = [(env, st)]
        for i in b.insts:
            if i.op == "phi" or i.op in ("br", "switch", "ret", "unreachable"):
                continue
            out = []
            for env, st in states:
                r = self.inst(env, st, i)
                if r is None:
                    if i in self.flow:
                        r = [(v, st2) for v, st2 in self.values(env, st, i)]
                    else:
                        r = [(None, st)]
                for v, st2 in r:
                    e = env
                    if v is not None:
                        e = dict(env)
                        e[i] = v
                    out.append((e, st2))
            states = out
        return states

    def report(self, i, key, msg):
        self.bad.append((key, msg, i, self.cur))

    def flush(self, ctx, prefix):
        for key, msg, i, k in self.bad:
            ctx.violation(prefix + key, msg, self.m.where(i), self.trace(k))
        ctx.count("states", self.n)
        ctx.count("events", self.hits)

    def path(self, o):
        return self.ms._addr(o)[1]

    def origins(self, v, seen=None):
        """The loads, calls and constants a value is made of (through casts and choices)."""
        seen = set() if seen is None else seen
        v = num(strip(v))
        if v in seen:
            return set()
        seen.add(v)
        if isinstance(v, Inst) and v.op == "phi":
            return set().union(*[self.origins(x, seen) for x, _ in v.incoming])
        if isinstance(v, Inst) and v.op == "select":
            return self.origins(v.ops[1], seen) | self.origins(v.ops[2], seen)
        return {v}


class Handler(Order):
    """One event in the daemon; tags: mode (old: a timeout is pending, new: some keyboard answers that one is), remembered time left."""

    def sources(self):
        for i in self.fn.insts():
            if i.op == "load" and isinstance(i.ops[0], GRef) and i.ops[0].name == self.timeout or self.asks(i):
                yield i

    def asks(self, i):
        return i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in self.m.fns and self.m.fns[i.callee.name].src == "kbd_process_events"

    def begin(self):
        return ("S" if self.mode == "old" else "any", None, frozenset())

    def stamp(self, v):
        v = strip(v)
        return isinstance(v, Inst) and v.op == "load" and self.path(v.ops[0])[-1:] == [("event", "timestamp")]

    def lastvar(self, v):
        v = strip(v)
        return v.ops[0].name if isinstance(v, Inst) and v.op == "load" and isinstance(v.ops[0], GRef) else None

    def isage(self, v, st):
        v = strip(v)
        if isinstance(v, Inst) and v.op == "sub" and self.stamp(v.ops[0]) and self.lastvar(v.ops[1]):
            return self.lastvar(v.ops[1])
        return None

    def inst(self, env, st, i):
        T, kb, tags = st
        if i.op == "load" and isinstance(i.ops[0], GRef) and i.ops[0].name == self.timeout:
            if T == "any":
                return [(x, (x, kb, tags)) for x in "N0SL"]
            return [(T, st)]
        if i.op == "store" and isinstance(i.ops[1], GRef):
            if i.ops[1].name == self.timeout:
                v = self.cls(env, i.ops[0])
                return [(None, (v if isinstance(v, str) else "U", kb, tags))]
            if self.stamp(i.ops[0]):
                return [(None, (T, kb, tags | {("last", i.ops[1].name)}))]
        if kb is not None and i in kb:
            kb = ()
            st = (T, kb, tags)
            if not self.asks(i) and i not in self.flow:
                return [(None, st)]
        if self.asks(i):
            self.hits += 1
            if self.mode == "old":
                return [(x, st) for x in "0SL"]
            who = tuple(sorted((o for o in self.origins(i.ops[0]) if isinstance(o, (Inst, Arg))), key=lambda o: o.uid))
            r = []
            if kb is None or kb and kb == who:
                # a keyboard which is asked again: the last answer counts
                r += [(x, (T, None, tags)) for x in "0SL"]
                r.append(("S", (T, who, tags)))
            else:
                r += [(x, st) for x in "0SL"]
            return r
        if i in self.flow and i.op == "sub":
            x = self.cls(env, i.ops[0])
            g = self.isage(i.ops[1], st)
            if x in ("U", "C") or not g:
                return [("U", st)]
            zero = ("last", g) in tags
            tags = tags | {("aged", g)} if not zero else tags
            st = (T, kb, tags)
            return [(y, st) for y in {"N": "N", "0": "N0", "S": "N0S", "L": "N0SL"}[x]]
        if i in self.flow and i.op == "add":
            return [("U", st)]
        return None

    def edge(self, st, b, x, t, w):
        T, kb, tags = st
        if self.mode == "old" and w == self.evtimeout and not isinstance(w, bool) and t.op == "switch" and self.istype(t.ops[0]):
            tags = tags | {("reset",)}
        if t.op == "br" and w is not None:
            c = strip(t.ops[0])
            if isinstance(c, Inst) and c.op == "icmp" and c.pred in ("eq", "ne") and num(c.ops[1]) == self.evtimeout and self.istype(c.ops[0]):
                if w == (c.pred == "eq"):
                    tags = tags | {("reset",)}
        if (b, x) in self.allask:
            tags = tags | {("all",)}
        return (T, kb, tags)

    def istype(self, v):
        return all(isinstance(o, Inst) and o.op == "load" and self.path(o.ops[0])[-1:] == [("event", "type")] for o in self.origins(v))

    def ret(self, env, st, t):
        T, kb, tags = st
        v = self.cls(env, t.ops[0])
        if v == "U":
            return
        if self.mode == "old":
            if ("reset",) in tags:
                if self.allask is not None and ("all",) not in tags:
                    self.report(t, "timeout", "a timeout that elapsed is not delivered to every keyboard")
                return
            if v in "N0":
                self.report(t, "old", "a pending timeout is forgotten because of another event")
            elif v in "LC":
                self.report(t, "old", "a pending timeout is put off by another event")
            elif not any(x[0] == "aged" for x in tags):
                self.report(t, "stale", "the time which has passed since the last event is not taken off the time left")
            elif not all(("last", x[1]) in tags for x in tags if x[0] == "aged"):
                self.report(t, "last", "the moment from which the time left counts is not brought up to date")
        elif kb is not None:
            if v in "N0":
                self.report(t, "new", "the time until a deadline is not passed on to the main loop")
            elif v in "LC":
                self.report(t, "later", "the main loop is told to wait longer than until the earliest deadline")
            if T in "N0LC":
                self.report(t, "forgotten", "the time until a deadline is not remembered for the next event")


def everykb(m, g):
    """Edges taken once every keyboard of the list of configurations has been asked."""
    cfg = CFG(g)
    ms = ModSets(m)
    out = set()

    def asks(i):
        return i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns and m.fns[i.callee.name].src == "kbd_process_events"
    for h, body in cfg.loops.items():
        for p in h.insts:
            if p.op != "phi" or p.ty.k != "ptr":
                continue
            ins = [v for v, b in p.incoming if b in body]
            outs = [v for v, b in p.incoming if b not in body]
            step = all(isinstance(strip(v), Inst) and strip(v).op == "load" and isinstance(strip(strip(v).ops[0]), Inst) and
                       strip(strip(v).ops[0]).op == "getelementptr" and strip(strip(strip(v).ops[0]).ops[0]) is p and
                       ms._addr(strip(v).ops[0])[1][-1:] == [("config_ent", "next")] for v in ins)
            init = all(isinstance(strip(v), Inst) and strip(v).op == "load" and isinstance(strip(v).ops[0], GRef) for v in outs)
            calls = [i for b in body for i in b.insts if asks(i) and isinstance(strip(i.ops[0]), Inst) and strip(i.ops[0]).op == "load" and
                     ms._addr(strip(i.ops[0]).ops[0])[1][-1:] == [("config_ent", "kbd")]]
            leave = [(b, x) for b in body for x in Order.targets(b.insts[-1]) if x[1] not in body]
            if not (ins and step and init and calls) or any(b is not h for b, _ in leave):
                continue
            # an iteration must not avoid the call
            seen, work, skip = set(), [x for _, x in Order.targets(h.insts[-1]) if x in body], False
            while work:
                b = work.pop()
                if b is h:
                    skip = True
                    break
                if b in seen or any(i in calls for i in b.insts):
                    continue
                seen.add(b)
                work += [x for _, x in Order.targets(b.insts[-1]) if x in body]
            if not skip:
                out |= {(b, x[1]) for b, x in leave}
    return out


def daemon(ctx):
    m = ctx.mod
    h = ctx.need(dispatcher(m), "the daemon's event handler is not found")

    def gl(o):
        return isinstance(o, GRef) and o.name in m.globals
    g = inline(m, h, lambda c, ch: c.file == "src/daemon.c" and ("kbd_process_events" in closure(m, c) or not libcalls(m, c) and c.ret.k == "int"))
    # the variable that remembers the time left: the one the handler's result is read from
    cand = set()
    work, seen = [o for b in g.blocks for t in b.insts if t.op == "ret" for o in t.ops], set()
    while work:
        v = strip(work.pop())
        if v in seen or not isinstance(v, Inst):
            continue
        seen.add(v)
        if v.op == "load" and gl(v.ops[0]):
            cand.add(v.ops[0].name)
        elif v.op == "phi":
            work += [x for x, _ in v.incoming]
        elif v.op == "select":
            work += v.ops[1:]
        elif v.op == "sub":
            work.append(v.ops[0])
    wr = {i.ops[1].name for i in g.insts() if i.op == "store" and gl(i.ops[1])}
    cand &= wr
    m.enum("EV_TIMEOUT")
    if not cand:
        # nothing is remembered: the result can only come from the event itself
        ctx.violation("handler:old", "a pending timeout is forgotten because of another event", m.where(h.blocks[0].insts[0]))
        return
    for mode in ("old", "new"):
        e = Handler(m, g)
        e.mode, e.evtimeout = mode, m._enums["EV_TIMEOUT"]
        e.timeout = sorted(cand)[0]
        e.allask = everykb(m, g)
        e.run()
        ctx.need(e.hits, "the event handler never asks the engine")
        e.flush(ctx, "handler:")


class Loop(Order):
    """The main loop; state: (pending, elapsed, kind of event). pending: the last answer of the handler asks for a wake-up"""

    def sources(self):
        for i in self.fn.insts():
            if self.dispatch(i):
                yield i
        # constants the variable starts with are folded by cls()

    def dispatch(self, i):
        return i.op == "call" and not isinstance(i.callee, GRef)

    def clock(self, i):
        return isinstance(i, Inst) and i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in self.m.fns and \
            bool(libcalls(self.m, self.m.fns[i.callee.name]) & {"clock_gettime", "gettimeofday", "time"})

    def begin(self):
        return (False, False, None, "none")

    def moment(self, v):
        """The clock reading a value stands for."""
        v = strip(v)
        if self.clock(v):
            return v
        if isinstance(v, Inst) and v.op == "load":
            b, p = self.ms._addr(v.ops[0])
            if p and p[-1] == ("event", "timestamp"):
                r = {x for i in self.fn.insts() if i.op == "store" and self.path(i.ops[1])[-1:] == [("event", "timestamp")]
                     for x in [self.moment(i.ops[0])]}
                if len(r) == 1:
                    return r.pop()
        return None

    def elapsed(self, v):
        """v is the difference of a later and an earlier reading of the clock: (after, before)"""
        v = strip(v)
        if isinstance(v, Inst) and v.op == "sub":
            a, b = self.moment(v.ops[0]), self.moment(v.ops[1])
            if a is not None and b is not None:
                return a, b
        return None

    def inst(self, env, st, i):
        due, up, kind, rel = st
        if self.dispatch(i):
            self.hits += 1
            if kind == self.evtimeout:
                up = False
            if kind == self.devadd and not due:
                return [("0", (False, up, kind, "none"))]       # a new device does not set deadlines
            return [("0", (False, up, kind, "none")), ("S", (True, up, kind, "none"))]
        if i.op == "store" and self.path(i.ops[1])[-1:] == [("event", "type")]:
            k = num(strip(i.ops[0]))
            ks = self.origins(k)
            if len(ks) == 1 and isinstance(k, int):
                return [(None, (due, up, k, rel))]
            return [(None, (due, up, kk, rel)) for kk in sorted({x if isinstance(x, int) else -1 for x in ks})]
        if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("poll", "ppoll", "epoll_wait"):
            self.hits += 1
            t = self.cls(env, i.ops[2])
            if up:
                self.report(i, "missed", "a timeout which elapsed is not delivered before waiting again")
            elif due and t == "N":
                self.report(i, "forever", "the loop waits for ever although a timeout is pending")
            elif due and (t in "LC" or t == "S" and rel in ("fresh", "left")):
                self.report(i, "longer", "the loop does not wait for the time left until the next deadline")
            return [(None, (due, up, kind, "fresh"))]
        if i in self.flow and i.op == "sub" and i.ops[0] in self.flow:
            x = self.cls(env, i.ops[0])
            el = self.elapsed(i.ops[1])
            if el is None or not isinstance(x, str) or x in "UC":
                return [("U", st)]
            if not self.around(el):
                # the wrong interval: too little is taken off
                return [("L" if x == "S" else x, st)]
            aged = (due, up, kind, "aged")
            if x == "S":
                return [("S", aged)] if rel == "left" else [("0", (due, True, kind, "aged")), ("S", aged)]
            return [({"0": "N", "N": "N", "L": "U"}[x], aged)]
        if i in self.flow and i.op == "add" and any(o in self.flow for o in i.ops):
            o = [o for o in i.ops if o not in self.flow]
            if len(o) == 1 and self.elapsed(o[0]):
                x = self.cls(env, next(o for o in i.ops if o in self.flow))
                return [("L" if x == "S" else "U", st)]
            return [("U", st)]
        return None

    def around(self, el):
        """The waiting lies between the two readings."""
        polls = [i for i in self.fn.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("poll", "ppoll")]
        after, before = el

        def reaches(a, b, stop):
            """every path from a runs into b before stop"""
            blk = a.block
            seq = blk.insts[blk.insts.index(a) + 1:]
            seen, work = set(), [(blk, seq)]
            while work:
                x, l = work.pop()
                for j in l:
                    if j in b:
                        return True
                    if j in stop:
                        break
                else:
                    for y in self.succ(x):
                        if y not in seen:
                            seen.add(y)
                            work.append((y, y.insts))
            return False
        return reaches(before, polls, [after]) and not reaches(before, [after], polls)

    def compared(self, env, st, i, x, y):
        due, up, kind, rel = st
        for a, b, p, c in ((i.ops[0], i.ops[1], i.pred, y), (i.ops[1], i.ops[0], SWAP[i.pred], x)):
            if b in self.flow and self.elapsed(a) and c in ("S", "0", "N"):
                if c != "S":
                    return [(r, st) for r in (False, True)]
                if p in ("sge", "uge"):
                    return [(True, (due, True, kind, "over")), (False, (due, up, kind, "left"))]
                if p in ("slt", "ult"):
                    return [(False, (due, True, kind, "over")), (True, (due, up, kind, "left"))]
                if p in ("sgt", "ugt"):
                    return [(True, (due, True, kind, "over")), (False, (due, up, kind, "left")), (False, (due, True, kind, "over"))]
                if p in ("sle", "ule"):
                    return [(False, (due, True, kind, "over")), (True, (due, up, kind, "left")), (True, (due, True, kind, "over"))]
        return Order.compared(self, env, st, i, x, y)

    def edge(self, st, b, x, t, w):
        return st

    def ret(self, env, st, t):
        pass


def mainloop(ctx):
    m = ctx.mod
    f = ctx.need(m.fn("evloop"), "the main loop is not found")
    g = inline(m, f, lambda c, ch: c.file == f.file and (libcalls(m, c) & {"poll", "ppoll"} or any(i.op == "call" and not isinstance(i.callee, GRef) for i in c.insts()) or not libcalls(m, c) and c.ret.k == "int"))
    e = Loop(m, g)
    m.enum("EV_TIMEOUT")
    e.evtimeout = m._enums["EV_TIMEOUT"]
    e.devadd = m._enums["EV_DEV_ADD"]
    e.run()
    n = sum(1 for i in g.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "poll")
    ctx.need(n, "the main loop does not poll")
    e.flush(ctx, "loop:")


# ---- the width of a time ----

def whole(ctx):
    """Times since boot in milliseconds need more than 32 bits after 25 days: on their way from the clock to the deadlines they are never cut."""
    m = ctx.mod
    ms = ModSets(m)
    fns = [f for f in m.fns.values() if f.file.startswith("src/") and f.file != "src/monitor.c"]
    clocks = set()
    for f in fns:
        if any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "clock_gettime" for i in f.insts()):
            clocks.add(f.name)
    ctx.need(clocks, "no function reads the clock")
    times, args, rets = set(), set(), set(clocks)

    def fieldof(i):
        p = ms._addr(i)[1]
        return p[-1] if p else None

    def absolute(f, v, depth=0):
        """v is a moment (not the distance of two moments)."""
        if isinstance(v, Arg):
            return (f.name, v.idx if hasattr(v, "idx") else f.args.index(v)) in args
        if not isinstance(v, Inst) or depth > 12:
            return False
        if v.op in ("sext", "zext", "trunc", "freeze"):
            return absolute(f, v.ops[0], depth + 1)
        if v.op == "call":
            return isinstance(v.callee, GRef) and v.callee.name in rets
        if v.op == "load":
            x = fieldof(v.ops[0])
            return x in times or isinstance(v.ops[0], GRef) and ("g", v.ops[0].name) in times
        if v.op == "add":
            return any(absolute(f, o, depth + 1) for o in v.ops) 
        if v.op == "sub":
            return absolute(f, v.ops[0], depth + 1) and not absolute(f, v.ops[1], depth + 1) and isinstance(strip(v.ops[1]), Const)
        if v.op == "phi":
            return any(absolute(f, o, depth + 1) for o, _ in v.incoming if o is not v and not (isinstance(o, Inst) and o.op == "phi"))
        if v.op == "select":
            return any(absolute(f, o, depth + 1) for o in v.ops[1:])
        return False

    n = -1
    while n != len(times) + len(args) + len(rets):
        n = len(times) + len(args) + len(rets)
        for f in fns:
            for i in f.insts():
                if i.op == "store" and absolute(f, i.ops[0]):
                    if isinstance(i.ops[1], GRef):
                        times.add(("g", i.ops[1].name))
                    elif fieldof(i.ops[1]):
                        times.add(fieldof(i.ops[1]))
                elif i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
                    for k, o in enumerate(i.ops[:len(m.fns[i.callee.name].args)]):
                        if absolute(f, o):
                            args.add((i.callee.name, k))
                elif i.op == "ret" and i.ops and absolute(f, i.ops[0]):
                    rets.add(f.name)
    for f in fns:
        for i in f.insts():
            if i.op == "trunc" and i.ty.k == "int" and absolute(f, i.ops[0]):
                ctx.violation("cut", f"a moment is cut to {i.ty.a if hasattr(i.ty, 'a') else 32} bits: 25 days after the system was started every deadline compared with it is wrong", where=m.loc(i))
            elif i.op in ("fptosi", "fptoui") and f.name in clocks and i.ty.k == "int" and ms_width(i.ty) < 64:
                ctx.violation("cut", "the time read from the clock is cut to 32 bits", where=m.loc(i))
    ctx.count("moments", len(times) + len(args))


def ms_width(t):
    return t.a if isinstance(t.a, int) else 64


def run(ctx):
    ctx.rule("the timer table loses no future deadline and yields the earliest", table)
    ctx.rule("every deadline that is set and every chord that waits is scheduled", waiting)
    ctx.rule("every deadline an action sets is scheduled", actions)
    ctx.rule("the earliest deadline is passed on by the engine", passing)
    ctx.rule("the daemon passes the earliest deadline on and forgets none", daemon)
    ctx.rule("a moment is never cut to 32 bits on its way from the clock to the deadlines", whole)
    ctx.rule("the main loop waits for the time left and delivers what elapsed", mainloop)
