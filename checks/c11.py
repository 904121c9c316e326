"""C11: withheld events. The engine step is followed on every path, from every state in which it may hold events back (a chord being
disambiguated, a chord waiting for its hold time, events being replayed, an undecided tap/hold key), with none, one, two or all but one
place of the queue taken by arbitrary events. Every event which comes in is processed, absorbed as the release of an active chord, dropped
because it repeats what is known, or appended to the queue unchanged - exactly one of these; events which are already withheld stay as they
are until the decision, and on it the whole queue (less the presses which make up the chord) is handed to the replay once, after the action
of the undecided key and from a copy which the action cannot disturb. The replay hands on each event once and in order. Chords are only
recognised from exactly their own keys. Nothing else in the program touches the queues."""
from seq import *
import c05
import c10

CH, PK = ("keyboard", "chord"), ("keyboard", "pending_key")


def paths(m):
    """Names of the parts of both queues: {'chord': (prefix, queue, size), 'pending': ...}"""
    ms = ModSets(m)
    out = {}
    el = m.structsize("key_event")

    def isqueue(x):
        t = m.fieldty(*x)
        return t is not None and t.k == "arr" and "key_event" in repr(t)
    for f in m.fns.values():
        if f.file != KFILE:
            continue
        for i in f.insts():
            if i.op not in ("store", "load", "getelementptr"):
                continue
            p = ms._addr(i if i.op == "getelementptr" else i.ops[1] if i.op == "store" else i.ops[0])[1]
            for w, pre in (("chord", CH), ("pending", PK)):
                if pre not in p:
                    continue
                for k, x in enumerate(p):
                    if x not in (CH, PK) and x[0].startswith("keyboard.") and isqueue(x):
                        out.setdefault(w, {})["queue"] = tuple(p[:k + 1])
                if i.op == "store" and p[-1][1] == "queue_sz":
                    out.setdefault(w, {})["size"] = tuple(p)
                if i.op == "store" and w == "pending" and p[-1][1] == "code" and p[-1][0] != "key_event":
                    out.setdefault(w, {})["code"] = tuple(p)
                if i.op == "store" and w == "chord" and p[-1][1] == "state":
                    out.setdefault(w, {})["state"] = tuple(p)
    return out


def fp(path):
    return tuple(("f",) + x for x in path)


FIELDS = ("code", "pressed", "timestamp")


class Held(Seq):
    """tags: ('app', queue, index, field) a field of the event appended; ('examined',) ('processed',) ('carried',) ('replayed', queue)
    ('cleared',) the undecided key is resolved; ('dup',) ('absorbed',) ('hit',) ('same', queue, j, field) ('chordkey', value) ('resolved',)"""
    split_selects = True
    which = None            # the queue that holds events at the start

    def seed(self, s):
        a = self.fn.args
        self.kbd = ("v", next(x for x in a if x.ty.k == "ptr"))
        ints = [x for x in a if x.ty.k == "int"]
        self.code, self.pressed, self.time = ("v", ints[0]), ("v", ints[1]), ("v", ints[-1])
        if self.ev == "none":
            s.env[ints[0]] = 0
            self.code = 0
        else:
            s.facts[self.code] = (1, 255, frozenset())
            s.env[ints[1]] = self.pressed = 1 if self.ev == "down" else 0
        self.put_mem(s, self.P["chord"]["state"], 4, self.state)
        self.Q = {}
        self.k = {"chord": 0, "pending": 0}
        self.pc = 0
        if self.which == "pending":
            self.pc = ("v", self.syms["pc"])
            s.facts[self.pc] = (1, 255, frozenset())
            s.mem[self.slot("pending", ("code",)), 1] = self.pc
        elif self.which is None:
            s.mem[self.slot("pending", ("code",)), 1] = 0
        w = self.which
        if w:
            self.k[w] = self.n
            self.put_mem(s, self.P[w]["size"], 8, self.n)
            for j in range(min(self.n, 2)):
                for f, b in (("code", 1), ("pressed", 1), ("timestamp", self.mod.sizeof(self.mod.fieldty("key_event", "timestamp")))):
                    v = ("v", self.syms[f, j])
                    self.Q[j, f] = v
                    s.mem[self.qaddr(w, j, f), b] = v
                s.facts[self.Q[j, "code"]] = (1, 255, frozenset())
        if w != "pending":
            self.put_mem(s, self.P["pending"]["size"], 8, 0)

    def slot(self, w, names):
        return ("a", self.kbd, fp(self.P[w][names[0]]))

    def put_mem(self, s, path, width, v):
        s.mem[("a", self.kbd, fp(path)), width] = v

    def getm(self, s, path):
        for (a, w), v in s.mem.items():
            if a == ("a", self.kbd, fp(path)):
                return self.const(s, v) if self.const(s, v) is not None else v
        return None

    def qaddr(self, w, j, f):
        return ("a", self.kbd, fp(self.P[w]["queue"]) + ((("x", j),) if j else ()) + (("f", "key_event", f),))

    def names(self, a):
        return tuple((e[1], e[2]) for e in a[2] if e[0] == "f") if isinstance(a, tuple) and a[0] == "a" else ()

    def inqueue(self, a):
        p = self.names(a)
        for w in ("chord", "pending"):
            q = self.P[w]["queue"]
            if p[:len(q)] == q:
                e = elem(a, q[-1])
                return w, e, p[-1][1] if p[-1][0] == "key_event" else None
        return None

    def extra_key(self, s, b):
        return tuple(repr(self.getm(s, self.P[w][x])) for w, x in (("chord", "state"), ("chord", "size"), ("pending", "size"), ("pending", "code")))

    # ---------------------------------------------------------- stores
    def on_store(self, s, ins, addr, v):
        q = self.inqueue(addr)
        p = self.names(addr)
        v = canon(v)
        if q:
            w, e, f = q
            self.events += 1
            if self.state == self.RES and w == "chord":
                self.report(s, ins, "replaying", "the queue is changed while its events are being replayed")
                return
            if w == "pending" and ("cleared",) in s.auto:
                self.report(s, ins, "clobber", "the queue of a key which may have become undecided in the meantime is overwritten")
                return
            if not self.atend(s, ins, w, e):
                return
            exp = {"code": self.code, "pressed": self.pressed, "timestamp": self.time}.get(f)
            if exp is None or v != canon(exp):
                self.report(s, ins, "garbled", "a withheld event is not recorded as it came in (" + str(f) + ")")
                return
            self.put(s, ("app", w, e, f))
            return
        for w in ("chord", "pending"):
            if p == self.P[w]["size"]:
                self.events += 1
                old = self.getm(s, p)
                c = self.const(s, v)
                if w == "chord" and self.state == self.RES:
                    self.report(s, ins, "replaying", "the queue is changed while its events are being replayed")
                elif w == "pending" and ("nested",) in s.auto:
                    self.report(s, ins, "clobber", "the queue of a key which may have become undecided in the meantime is emptied")
                elif isinstance(old, int) and c == old + 1:
                    if not all(("app", w, old, f) in s.auto for f in FIELDS):
                        self.put(s, ("early", w, old))
                    self.put(s, ("grown", w, old))
                elif c == 0:
                    if w == "pending" and self.pc != 0 and ("cleared",) not in s.auto:
                        self.put(s, ("emptied",))
                    if w == "chord" and self.which == "chord" and ("replayed", "chord") not in s.auto:
                        self.report(s, ins, "lost", "the queue is emptied although its events have not been replayed")
                elif c != old:
                    self.report(s, ins, "count", "the number of withheld events is not kept")
        if p == self.P["pending"]["code"]:
            self.events += 1
            if ("nested",) in s.auto:
                self.report(s, ins, "clobber", "a key which became undecided in the meantime is forgotten")
            elif self.const(s, v) == 0:
                if self.pc != 0:
                    self.put(s, ("cleared",))
            else:
                self.report(s, ins, "code", "the undecided key is replaced by another")
        if p == self.P["chord"]["state"] and self.state == self.RES:
            self.report(s, ins, "replaying", "the state of the chord is changed while its events are being replayed")
        if p and p[-1] == ("chord", "keys") and ("keyboard", "active_chords") in p and self.const(s, v) == 0 and ("hit",) in s.auto:
            self.put(s, ("absorbed",))
        if p == (("keyboard", "active_chords"), ("active_chord", "active")):
            if self.const(s, v) == 0:
                self.put(s, ("ended",))
            else:
                self.put(s, ("started",))

    def atend(self, s, ins, w, e):
        size = self.getm(s, self.P[w]["size"])
        if e != size and ("grown", w, e) not in s.auto:
            self.report(s, ins, "place", "an event is not appended at the end of the queue")
            return False
        return True

    def copied(self, s, ins, addr, w, e):
        """A whole event is copied into the queue."""
        if self.state == self.RES and w == "chord":
            self.report(s, ins, "replaying", "the queue is changed while its events are being replayed")
            return
        if w == "pending" and ("cleared",) in s.auto:
            self.report(s, ins, "clobber", "the queue of a key which may have become undecided in the meantime is overwritten")
            return
        if not self.atend(s, ins, w, e):
            return
        for f, exp in (("code", self.code), ("pressed", self.pressed), ("timestamp", self.time)):
            a = ("a", addr[1], addr[2] + (("f", "key_event", f),))
            got = [v for (b, _), v in s.mem.items() if b == a]
            if not got or canon(got[0]) != canon(exp):
                self.report(s, ins, "garbled", "a withheld event is not recorded as it came in (" + f + ")")
                return
            self.put(s, ("app", w, e, f))

    def step(self, s, ins):
        keep = {}
        if ins.op == "call":
            f = self.mod.fns.get(self.callname(ins) or "")
            res = self.getm(s, self.P["chord"]["state"]) == self.RES
            # while events are replayed the engine step leaves the chord's state alone (shown below), and actions always do
            if f is self.desc or res and (f is self.step_ or f is not None and f.src == "kbd_process_events"):
                keep = {k: v for k, v in s.mem.items() if CH in self.names(k[0])}
        Seq.step(self, s, ins)
        for k, v in keep.items():
            s.mem.setdefault(k, v)

    # ---------------------------------------------------------- tests
    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            p = self.names(a)
            if p and p[-1] == ("chord", "keys") and ("keyboard", "active_chords") in p:
                self.drop(s, lambda x: x[0] == "key")
                self.put(s, ("key", s.env[ins]))
        n = self.callname(ins)
        if n and n.startswith("llvm.memcpy"):
            a = self.val(s, ins.ops[0])
            q = self.inqueue(a)
            if q:
                self.copied(s, ins, a, q[0], q[1])
        f = self.mod.fns.get(n) if n else None
        if f is not None and f is self.cget:
            self.drop(s, lambda x: x[0] == "got")
            if canon(self.val(s, ins.ops[1])) == self.code and self.code != 0:
                for x in self.get(s, "cg"):
                    if x[1]:
                        s.facts[s.env[ins]] = (1, INF, frozenset())
                    else:
                        s.env[ins] = 0
                self.put(s, ("got", s.env[ins]))
        if f is not None and f is self.cset:
            self.drop(s, lambda x: x[0] in ("set", "cg"))
            self.put(s, ("set", s.env[ins]))

    def on_branch(self, s, t, c, want):
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("eq", "ne"):
            eq = want == (c[1] == "eq")
            l, r = canon(c[2]), canon(c[3])
            for a, b in ((l, r), (r, l)):
                if a == self.code and self.code != 0:
                    if eq and any(x[1] == b for x in self.get(s, "key")):
                        self.put(s, ("hit",))
                    for (j, f), v in self.Q.items():
                        if f == "code" and v == b:
                            if ("eq", j) in s.auto and not eq or ("ne", j) in s.auto and eq:
                                return False
                            self.put(s, (("eq" if eq else "ne"), j))
                    if b == self.pc and self.pc != 0:
                        if ("eqpc",) in s.auto and not eq or ("nepc",) in s.auto and eq:
                            return False
                        self.put(s, ("eqpc",) if eq else ("nepc",))
        for (j, f), v in self.Q.items():
            if f == "pressed":
                l, h, ex = self.rng(s, v)
                if self.ev == "down" and l > 0 or self.ev == "up" and h == 0:
                    self.put(s, ("samedir", j))
                if isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("eq", "ne") and want == (c[1] == "eq"):
                    l, r = canon(c[2]), canon(c[3])
                    if v in (l, r) and self.const(s, r if l == v else l) == self.pressed:
                        self.put(s, ("samedir", j))
        for x in self.get(s, "got"):
            r = self.rng(s, x[1])
            known = 0 if r[0] == r[1] == 0 else 1 if r[0] > 0 or 0 in r[2] else None
            if known is not None:
                self.put(s, ("cg", known))
                if known == (self.ev == "down"):
                    self.put(s, ("dup",))
        for x in self.get(s, "set"):
            r = self.rng(s, x[1])
            if r[0] > 0 or r[1] < 0 or 0 in r[2]:
                self.put(s, ("dup",))       # no room to remember the key: nothing can be done with it

    # ---------------------------------------------------------- calls
    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is self.desc:
            ints = [canon(a) for a, o in zip(args, ins.ops) if o.ty.k == "int"]
            code, pressed = ints[0], ints[-2]
            if self.pc != 0 and code == self.pc and self.const(s, pressed) not in (0, None):
                self.put(s, ("carried",))
                self.nested(s, ins)
            elif code == self.code and self.code != 0:
                if canon(pressed) != self.pressed and self.const(s, pressed) != self.pressed:
                    self.report(s, ins, "direction", "an event is processed as its opposite")
                self.put(s, ("processed",))
                if self.pc != 0 and ("cleared",) not in s.auto:
                    if self.ev == "down":
                        self.report(s, ins, "overtaken", "a key press is processed while earlier events are withheld")
                    elif not ("nepc",) in s.auto or self.n <= 2 and not all(("ne", j) in s.auto for j in range(min(self.n, 2))):
                        self.report(s, ins, "overtaken", "the release of a key whose press is withheld is processed before the press")
            self.drop(s, lambda x: x[0] in ("key", "got", "set", "cg"))
        elif f is self.step_:
            ints = [canon(a) for a, o in zip(args, ins.ops) if o.ty.k == "int"]
            c, p = ints[0], self.const(s, ints[1])
            if ("started",) in s.auto and p == 1 and self.const(s, c) != 0:
                self.put(s, ("chordpress",))
            elif ("ended",) in s.auto and p == 0 and self.const(s, c) != 0:
                self.put(s, ("chordrelease",))
            elif self.const(s, c) == 0:
                pass
            elif c == self.code:
                self.put(s, ("processed",))
            if self.getm(s, self.P["chord"]["state"]) != self.RES:
                self.put(s, ("handed",))        # whatever is withheld is the nested step's business now
            self.drop(s, lambda x: x[0] in ("key", "got", "set", "cg"))
        elif f is not None and f.src == "kbd_process_events":
            self.events += 1
            self.replay(s, ins, args)
            if self.getm(s, self.P["chord"]["state"]) != self.RES:
                self.put(s, ("handed",))
            self.drop(s, lambda x: x[0] in ("key", "got", "set", "cg"))

    def nested(self, s, ins):
        if ("cleared",) not in s.auto:
            self.report(s, ins, "nested", "the undecided key still counts as undecided while its action is carried out, which may make another key undecided")
        elif self.getm(s, self.P["pending"]["size"]) != 0:
            self.report(s, ins, "nested", "the queue is still full while the action of the undecided key is carried out, which may make another key undecided")
        self.put(s, ("nested",))

    def total(self, s, w):
        """How many events are withheld by now (the new one included)."""
        g = any(x[1] == w for x in self.get(s, "grown"))
        return self.k[w] + (1 if g else 0)

    def replay(self, s, ins, args):
        ptr, n = args[1], canon(args[2])
        q = self.inqueue(ptr)
        if q and q[0] == "chord":
            if ("replayed", "chord") in s.auto:
                self.report(s, ins, "twice", "the queue is replayed twice")
            self.put(s, ("replayed", "chord"))
            off = q[1]
            press = ("chordpress",) in s.auto
            if press:
                o = canon(off)
                ld = o[1] if isinstance(o, tuple) and o[0] == "v" else None
                if not (isinstance(ld, Inst) and ld.op == "load" and ModSets(self.mod)._addr(ld.ops[0])[1][-1:] == [("chord", "sz")]):
                    self.report(s, ins, "presses", "the presses which make up an activated chord are not left out of the replay, or more than them is")
            elif self.const(s, off) != 0:
                self.report(s, ins, "skipped", "withheld events are left out although no chord was activated")
            d = c10.minus(c10.lin(n), c10.minus(({}, self.total(s, "chord")), c10.lin(off)))
            tot = self.getm(s, self.P["chord"]["size"])
            if d[0] or d[1] != 0:
                # the count may have been read from memory
                d2 = c10.minus(c10.lin(n), c10.minus(c10.lin(tot) if tot is not None else ({}, 0), c10.lin(off)))
                if tot is None or d2[0] or d2[1]:
                    self.report(s, ins, "number", "not all withheld events are replayed")
            st = self.getm(s, self.P["chord"]["state"])
            if st != self.RES:
                self.report(s, ins, "reentry", "the events are replayed without saying so: they would be withheld again")
            return
        w = "pending"
        if self.which != "pending" or ("cleared",) not in s.auto:
            if self.which == "pending" and q and q[0] == "pending":
                self.report(s, ins, "nested", "events are replayed from the queue itself, to which the replay may append")
            return
        if ("carried",) not in s.auto:
            self.report(s, ins, "order", "withheld events are replayed before the key they were waiting for")
        if ("replayed", w) in s.auto:
            self.report(s, ins, "twice", "the queue is replayed twice")
        self.put(s, ("replayed", w))
        if q:
            self.report(s, ins, "nested", "events are replayed from the queue itself, which the action may have changed")
            return
        t = self.total(s, w)
        if self.const(s, n) != t:
            self.report(s, ins, "number", "not all withheld events are replayed")
            return
        if not (isinstance(ptr, tuple) and ptr[0] == "a"):
            ptr = ("a", ptr, ())
        ag = s.mem.get((ptr, "agg"))
        for j in range(t):
            if j >= 2 and j != self.k[w]:
                continue
            for f in FIELDS:
                exp = {"code": self.code, "pressed": self.pressed, "timestamp": self.time}[f] if j == self.k[w] else self.Q[j, f]
                a = ("a", ptr[1], ptr[2] + ((("x", j),) if j else ()) + (("f", "key_event", f),))
                got = [v for (b, _), v in s.mem.items() if b == a]
                if not got or canon(got[0]) != canon(exp):
                    self.report(s, ins, "content", "the events which are replayed are not the ones which were withheld")
                    return

    # ---------------------------------------------------------- end
    def on_exit(self, s, t):
        if t.op != "ret":
            return
        Seq.on_exit(self, s, t)
        tags = s.auto
        for x in self.get(s, "grown"):
            if not all(("app", x[1], x[2], f) in tags for f in FIELDS):
                self.report(s, t, "hole", "an event is counted as withheld but not recorded completely")
                return
        if ("ended",) in tags and ("chordrelease",) not in tags:
            self.report(s, t, "release", "a chord ends without the release of its action being processed")
        if ("started",) in tags and ("chordpress",) not in tags:
            self.report(s, t, "press", "a chord becomes active without its action being carried out")
        if self.get(s, "early"):
            pass
        nested = ("nested",) in tags
        if self.which == "pending":
            if ("cleared",) in tags:
                if ("carried",) not in tags:
                    self.report(s, t, "lost", "the undecided key is dropped without carrying out an action")
                elif ("replayed", "pending") not in tags and self.total(s, "pending"):
                    self.report(s, t, "lost", "the undecided key is resolved but the events withheld for it are not replayed")
            elif ("emptied",) in tags:
                self.report(s, t, "lost", "the events withheld for an undecided key are dropped")
            elif nested:
                self.report(s, t, "lost", "the undecided key is carried out but stays undecided")
        st = self.getm(s, self.P["chord"]["state"])
        rep = ("replayed", "chord") in tags
        wait = (self.st["CHORD_PENDING_DISAMBIGUATION"], self.st["CHORD_PENDING_HOLD_TIMEOUT"])
        if self.which == "chord" or rep:
            if rep and st != self.st["CHORD_INACTIVE"]:
                self.report(s, t, "stuck", "after the replay no further chord can be recognised")
            elif not rep and st not in wait and ("handed",) not in tags:
                self.report(s, t, "lost", "the engine stops waiting for a chord without replaying the withheld events")
        if self.ev == "none":
            return
        fates = []
        for w in ("chord", "pending"):
            if any(x[1] == w for x in self.get(s, "grown")):
                live = st in wait or rep if w == "chord" else True
                if live:
                    fates.append("queued")
        if ("processed",) in tags:
            fates.append("processed")
        if ("absorbed",) in tags:
            fates.append("absorbed")
        if self.which == "chord" and not fates:
            js = [j for j in range(min(self.n, 2)) if ("eq", j) in tags and ("samedir", j) in tags]
            for j in js:
                if all(("ne", i) in tags for i in range(j + 1, min(self.n, 2))):
                    fates.append("known")
                    break
            if not fates and self.n > 2 and not self.get(s, "ne"):
                fates.append("known")       # the queue's unnamed events may contain it
        if not fates and ("dup",) in tags:
            fates.append("dup")
        if not fates:
            self.report(s, t, "swallowed", "an event is neither processed nor withheld")
        elif len(fates) > 1:
            self.report(s, t, "twice", "an event is both " + " and ".join(fates))


def stepcode(ctx):
    m = ctx.mod
    d, ev = descriptor_fn(m), event_fn(m)
    k = m.fn("kbd_process_events")
    cg, cs = c05.prims(ctx)
    stop = {d, ev, k, cg, cs, matcher(m)}
    ms = ModSets(m)
    P = paths(m)
    qs = [P[w]["queue"] for w in ("chord", "pending")]

    def touches(f):
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and m.fns.get(i.callee.name) in (d, ev, k, cg, cs):
                return True
            if i.op in ("store", "load"):
                p = tuple(ms._addr(i.ops[1] if i.op == "store" else i.ops[0])[1])
                if (CH in p or PK in p or ("keyboard", "active_chords") in p) and (i.op == "store" or any(p[:len(q)] == q for q in qs)):
                    return True
        return False
    want = {f for f in m.fns.values() if f.file == KFILE and f not in stop and touches(f)}
    # wrappers around those
    ch = True
    while ch:
        ch = False
        for f in m.fns.values():
            if f.file == KFILE and f not in stop and f not in want and any(
                    i.op == "call" and isinstance(i.callee, GRef) and m.fns.get(i.callee.name) in want for i in f.insts()):
                want.add(f)
                ch = True
    return inline(m, ev, lambda c, chn: c in want), d, ev, k, cg, cs


def one(ctx, item):
    m = ctx.mod
    state, which, n, ev = item
    P = paths(m)
    g, d, st, k, cg, cs = stepcode(ctx)
    e = Held(m, g)
    e.P, e.state, e.which, e.n, e.ev = P, state, which, n, ev
    e.desc, e.step_, e.cget, e.cset = d, st, cg, cs
    m.enum("CHORD_INACTIVE")
    e.st = {x: y for x, y in m._enums.items() if x.startswith("CHORD_")}
    e.RES = e.st["CHORD_RESOLVING"]
    e.syms = {"pc": Sym("PC", 8)}
    for j in range(2):
        e.syms["code", j], e.syms["pressed", j], e.syms["timestamp", j] = Sym("C%d" % j, 8), Sym("P%d" % j, 8), Sym("T%d" % j, 8 * m.sizeof(m.fieldty("key_event", "timestamp")))
    cfg = CFG(g)
    phis = list(e.unroll(cfg, 16))
    ms = ModSets(m)
    sizes = {P["chord"]["size"], P["pending"]["size"]}
    for h, body in cfg.loops.items():
        small = n <= 2
        touched = any(i.op == "load" and tuple(ms._addr(i.ops[0])[1]) in sizes or
                      i.op == "load" and tuple(ms._addr(i.ops[0])[1])[:2] in (P["chord"]["queue"], P["pending"]["queue"]) for b in body for i in b.insts)
        if small and touched:
            for p in h.insts:
                if p.op == "phi" and p not in phis:
                    e.inductive.discard(p)
                    phis.append(p)
    e.unrolled = tuple(phis)
    e.run()
    ctx.need(e.exits, "the engine step never ends")
    e.flush(ctx, "step:")
    ctx.count("situations")


def steps(ctx):
    m = ctx.mod
    P = paths(m)
    for w in ("chord", "pending"):
        ctx.need(w in P and "queue" in P[w] and "size" in P[w], "the queue of withheld events is not found (" + w + ")")
    ctx.need("code" in P["pending"] and "state" in P["chord"], "the state of undecided keys is not found")
    m.enum("CHORD_INACTIVE")
    E = m._enums
    cap = {w: m.sizeof(m.fieldty(*P[w]["queue"][-1])) // m.structsize("key_event") for w in ("chord", "pending")}
    items = []
    for ev in ("down", "up", "none"):
        items.append((E["CHORD_INACTIVE"], None, 0, ev))
        items.append((E["CHORD_RESOLVING"], None, 0, ev))
        for st in (E["CHORD_PENDING_DISAMBIGUATION"], E["CHORD_PENDING_HOLD_TIMEOUT"]):
            for n in (1, 2, cap["chord"] - 1):
                items.append((st, "chord", n, ev))
        for n in (0, 1, 2, cap["pending"] - 1):
            items.append((E["CHORD_RESOLVING"], "pending", n, ev))
    ctx.pmap(one, items)


# ------------------------------------------------------------------ the replay itself

class Order(Seq):
    """kbd_process_events on a batch of n events. tags ('next', i)"""
    split_selects = True

    def seed(self, s):
        a = self.fn.args
        ptrs = [x for x in a if x.ty.k == "ptr"]
        self.ptr = ptrs[1]
        s.env[[x for x in a if x.ty.k == "int"][-1]] = self.n
        for j in range(self.n):
            for f, b in (("code", 1), ("pressed", 1), ("timestamp", self.mod.sizeof(self.mod.fieldty("key_event", "timestamp")))):
                s.mem[self.adr(j, f), b] = ("v", self.syms[f, j])
            s.facts[("v", self.syms["code", j])] = (1, 255, frozenset())
        self.put(s, ("next", 0))

    def adr(self, j, f):
        return ("a", ("v", self.ptr), ((("x", j),) if j else ()) + (("f", "key_event", f),))

    def step(self, s, ins):
        keep = {}
        if ins.op == "call":
            keep = {k: v for k, v in s.mem.items() if isinstance(k[0], tuple) and k[0][0] == "a" and k[0][1] == ("v", self.ptr)}
        Seq.step(self, s, ins)
        for k, v in keep.items():
            s.mem.setdefault(k, v)      # the batch stays as it is while it is processed (shown for every caller)

    def on_other(self, s, ins, args, n):
        if self.mod.fns.get(n) is not self.step_:
            return
        self.events += 1
        ints = [canon(a) for a, o in zip(args, ins.ops) if o.ty.k == "int"]
        i = self.get(s, "next")[0][1]
        if self.const(s, ints[0]) == 0:
            return
        if i >= self.n:
            self.report(s, ins, "extra", "an event is processed which does not belong to the batch, or twice")
            return
        want = [("v", self.syms[f, i]) for f in FIELDS]
        if [ints[0], ints[1], ints[-1]] != want:
            self.report(s, ins, "order", "the events of a batch are not processed as they are and in order")
            return
        self.drop(s, lambda x: x[0] == "next")
        self.put(s, ("next", i + 1))

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        Seq.on_exit(self, s, t)
        if ("next", self.n) not in s.auto:
            self.report(s, t, "rest", "not every event of a batch is processed")


def batch(ctx):
    m = ctx.mod
    d, ev = descriptor_fn(m), event_fn(m)
    k = m.fn("kbd_process_events")
    g = inline(m, k, lambda c, ch: c.file == KFILE and c is not ev and len(list(c.blocks)) < 12)
    for n in range(4):
        e = Order(m, g)
        e.step_, e.n = ev, n
        e.syms = {(f, j): Sym(f + str(j), {"code": 8, "pressed": 8, "timestamp": 8 * m.sizeof(m.fieldty("key_event", "timestamp"))}[f]) for f in FIELDS for j in range(n)}
        cfg = CFG(g)
        phis = [p for h in cfg.loops for p in h.insts if p.op == "phi" and any(True for _ in cfg.counted(h) if _[0] is p)]
        ptrs = [p for h in cfg.loops for p in h.insts if p.op == "phi" and (p.ty.k == "ptr" or moves(p))]
        phis = list(dict.fromkeys(phis + ptrs))
        for p in phis:
            e.inductive.discard(p)
        e.unrolled = tuple(phis)
        e.run()
        ctx.need(e.exits, "a batch of events never ends")
        e.flush(ctx, "batch:")


def moves(p):
    """A loop variable which advances by a constant on some way round (and stays put on others)."""
    seen, work = set(), [v for v, _ in p.incoming]
    while work:
        v = work.pop()
        if v in seen or not isinstance(v, Inst):
            continue
        seen.add(v)
        if v.op in ("add", "sub") and (v.ops[0] is p and isinstance(v.ops[1], Const)):
            return True
        if v.op == "phi" and v is not p:
            work += [x for x, _ in v.incoming]
    return False


# ------------------------------------------------------------------ recognition of chords

class Match(Seq):
    """The comparison of a chord of sz keys with n withheld presses. tags ('eq', i, j) event i has key j, ('ne', i, j)"""

    def seed(self, s):
        ptrs = [x for x in self.fn.args if x.ty.k == "ptr"]
        self.chord, self.evs = ("v", ptrs[0]), ("v", ptrs[1])
        s.env[[x for x in self.fn.args if x.ty.k == "int"][-1]] = self.n
        s.mem[(("a", self.chord, (("f", "chord", "sz"),)), 8)] = self.sz
        for j in range(self.sz):
            s.mem[(("a", self.chord, (("f", "chord", "keys"),) + ((("x", j),) if j else ())), 1)] = ("v", self.K[j])
        for i in range(self.n):
            b = ((("x", i),) if i else ())
            s.mem[(("a", self.evs, b + (("f", "key_event", "code"),)), 1)] = ("v", self.C[i])
            s.mem[(("a", self.evs, b + (("f", "key_event", "pressed"),)), 1)] = self.press

    def on_branch(self, s, t, c, want):
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("eq", "ne"):
            eq = want == (c[1] == "eq")
            l, r = canon(c[2]), canon(c[3])
            for a, b in ((l, r), (r, l)):
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "v" and a[1] in self.C and b[1] in self.K:
                    i, j = self.C.index(a[1]), self.K.index(b[1])
                    if eq and (any(x[1] == i and x[2] != j or x[1] != i and x[2] == j for x in self.get(s, "eq")) or ("ne", i, j) in s.auto):
                        return False        # keys of a chord differ, and so do the withheld presses
                    if not eq and ("eq", i, j) in s.auto:
                        return False
                    self.put(s, ("eq" if eq else "ne", i, j))

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        Seq.on_exit(self, s, t)
        v = self.const(s, self.val(s, t.ops[0]))
        hit = {x[1] for x in self.get(s, "eq")}
        full = self.press and len(hit) == self.n == self.sz
        if v == 2 and not full:
            self.report(s, t, "foreign", "a chord is recognised although the withheld presses are not exactly its keys")
        elif full and v != 2:
            self.report(s, t, "missed", "a chord is not recognised although exactly its keys are pressed")
        elif v == 1 and not (self.press and len(hit) == self.n < self.sz):
            self.report(s, t, "partial", "events are withheld for a chord to which they do not belong")
        elif v == 0 and self.press and 0 < len(hit) == self.n < self.sz:
            self.report(s, t, "partial", "a chord whose keys are being pressed is given up")
        elif v == 0 and self.press and self.n and not any(all(("ne", i, j) in s.auto for j in range(self.sz)) for i in range(self.n)):
            self.report(s, t, "partial", "a chord whose keys are being pressed is given up")
        elif v is None:
            self.report(s, t, "unknown", "the outcome of the comparison with a chord depends on something else")


class Pick(Seq):
    """check_chord_match: the chord handed out is one that was recognised. tags ('full', result)"""

    def on_store(self, s, ins, addr, v):
        r = addr[1] if isinstance(addr, tuple) and addr[0] == "a" else addr
        if r in self.outs and ins.ops[0].ty.k == "ptr":
            self.events += 1
            if not any(self.const(s, x[1]) == 2 for x in self.get(s, "res")):
                self.report(s, ins, "pick", "a chord is handed out which was not recognised completely")

    def after_inst(self, s, ins):
        n = self.callname(ins)
        if n and self.mod.fns.get(n) is self.cmpf:
            self.drop(s, lambda x: x[0] == "res")
            self.put(s, ("res", s.env[ins]))


def matcher(m):
    """The function that compares a chord with withheld events."""
    ms = ModSets(m)
    c = [f for f in m.fns.values() if f.file == KFILE and CFG(f).loops and f.ret.k == "int" and
         any(i.op == "load" and ms._addr(i.ops[0])[1][-1:] == [("chord", "keys")] and isinstance(ms._addr(i.ops[0])[0], Arg) for i in f.insts()) and
         any(i.op == "load" and ms._addr(i.ops[0])[1][-1:] == [("key_event", "code")] and isinstance(ms._addr(i.ops[0])[0], Arg) for i in f.insts())]
    return c[0] if len(c) == 1 else None


def recognition(ctx):
    m = ctx.mod
    f = matcher(m)
    f = f or m.fn("chord_event_match", KFILE)
    ctx.need(f, "the comparison of chords with withheld events is not found")
    g = inline(m, f, lambda c, ch: c.file == KFILE)
    for sz in (1, 2, 3):
        for n in (0, 1, 2, 3):
            for press in (0, 1):
                if not press and n > 1:
                    continue
                e = Match(m, g)
                e.sz, e.n, e.press = sz, n, press
                e.K, e.C = [Sym("K%d" % j, 8) for j in range(sz)], [Sym("C%d" % j, 8) for j in range(n)]
                phis = [p for h in CFG(g).loops for p in h.insts if p.op == "phi"]
                for p in phis:
                    e.inductive.discard(p)
                e.unrolled = tuple(phis)
                e.run()
                ctx.need(e.exits, "a chord is never compared")
                e.flush(ctx, "match:")
    n = 0
    for c, i in callers(m, f.src):
        g = inline(m, c, lambda x, ch: x.file == KFILE and x is not f)
        outs = [a for a in g.args if a.ty.k == "ptr"][1:]
        e = Pick(m, g)
        e.outs, e.cmpf = [("v", a) for a in outs], f
        e.run()
        n += e.events
        e.flush(ctx, "match:")
    ctx.need(n, "no chord is ever chosen")


# ------------------------------------------------------------------ nobody else

class Actions(Seq):
    op = None

    def seed(self, s):
        DescEngine.seed(self, s)

    def roles(self):
        return DescEngine.roles(self)

    def _mayalias(self, a, b):
        return DescEngine._mayalias(self, a, b)

    def on_store(self, s, ins, addr, v):
        p = tuple((e[1], e[2]) for e in addr[2] if e[0] == "f") if isinstance(addr, tuple) and addr[0] == "a" else ()
        P = self.P
        for w in ("chord", "pending"):
            if p and (p == P[w]["size"] or p[:len(P[w]["queue"])] == P[w]["queue"]) or w == "chord" and p and p == P[w]["state"]:
                self.report(s, ins, "queue", "an action changes which events are withheld")
        if p and p == P["pending"]["code"]:
            self.events += 1
            if self.const(s, v) == 0 or canon(v) != self.code:
                self.report(s, ins, "forget", "an action drops the undecided key, or makes another one undecided")
            elif not self.pressed:
                self.report(s, ins, "release", "a key becomes undecided on its release, while another may be undecided")


def action(ctx, item):
    m = ctx.mod
    name, op, pressed = item
    d, ev = descriptor_fn(m), event_fn(m)
    k = m.fn("kbd_process_events")
    g = inline(m, d, lambda c, ch: c.file == KFILE and c not in (d, ev, k) and (not CFG(c).loops or touchers(m, c)))
    e = Actions(m, g)
    e.P, e.op, e.pressed = paths(m), op, pressed
    e.code = ("v", next(a for a in g.args if a.ty.k == "int"))
    e.run()
    ctx.count("actions")
    e.flush(ctx, f"{name}:")


def touchers(m, f):
    ms = ModSets(m)
    return any(i.op == "store" and (CH in ms._addr(i.ops[1])[1] or PK in ms._addr(i.ops[1])[1]) for i in f.insts())


def others(ctx):
    """Outside the engine step and the actions the queues are only written while a keyboard is created."""
    m = ctx.mod
    P = paths(m)
    ms = ModSets(m)
    d, ev = descriptor_fn(m), event_fn(m)
    g, *_ = stepcode(ctx)
    inside = {i.fnsrc for i in g.insts() if i.fnsrc} | {d.src, ev.src} | closure(m, d)
    n = 0
    for f in m.fns.values():
        for i in f.insts():
            if i.op != "store":
                continue
            r, p = ms._addr(i.ops[1])
            p = tuple(p)
            for w in ("chord", "pending"):
                if p and (p == P[w]["size"] or p[:len(P[w]["queue"])] == P[w]["queue"] or p == P[w].get("code") or p == P[w].get("state")):
                    n += 1
                    if f.src in inside or f.name in inside:
                        continue
                    if isinstance(r, Inst) and r.op == "call" and isinstance(r.callee, GRef) and r.callee.name in ("calloc", "malloc"):
                        continue
                    ctx.violation("outside", "withheld events are changed outside the engine step", m.where(i))
    ctx.count("writers", n)


def run(ctx):
    m = ctx.mod
    ctx.rule("every event has exactly one fate, and withheld events are replayed on the decision", steps)
    ctx.rule("a batch of events is processed completely and in order", batch)
    ctx.rule("a chord is recognised from exactly its keys", recognition)
    ctx.rule("no action touches the withheld events", lambda c: c.pmap(action, [(k, v, p) for k, v in sorted(ops(c.mod).items()) if k != "OP_NULL" for p in (1, 0)]))
    ctx.rule("nothing else touches the withheld events", others)
