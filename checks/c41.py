"""C41: when a chord fires. The engine's step through the states of a chord (nothing pending, keys pending, all keys held, resolving) is extracted as a table, by
abstract interpretation over LLVM IR of the function that keeps the state, with its helpers: for families of chords (one; one inside another; three keys), each
hold time (none, less, more than the interval between keys), each state with the events it holds back, and each class of event (a key of the chord, another key, a
release, time alone: before, at and after each bound) it yields the next state, what is carried out (the chord or nothing), which of the events held back are replayed, and
whether the event goes on to be an ordinary one. The second table is about the release of the keys of chords which have fired. Both are compared with the rule the
manual gives. Matching is judged on its own too: every order and every subset of the keys of chords of two to eight keys, with a foreign key or without."""
import itertools
from seq import *
from c20 import follow
from c42 import deep, idx

ASSUMPTIONS = ["a deadline that has passed is delivered before later events (C10)", "the choice among layers is C42's", "while a chord is resolved the events replayed leave the chord's own state alone (shown: the row `resolving` of the table)"]
A, B, C, X, Y = 36, 37, 38, 30, 31
POS = (1, 1 << 62, frozenset())
LAST, KEYGAP = 2 ** 31 - 25, 50
FAM = {"one chord (a+b)": ((A, B),), "a+b and a+b+c": ((A, B), (A, B, C)), "one chord (a+b+c)": ((A, B, C),)}


class Ch(Seq):
    def setup(self, ctx, chords, state=None, queue=(), match=None, active=(), hold=0, last=LAST):
        self.ctx, self.chords, self.state, self.q, self.match, self.active, self.hold, self.last, self.got = ctx, chords, state, queue, match, active, hold, last, []
        self.K, self.M = Sym("kbd", 64, POS), Sym("match", 64, POS)
        return self

    def _mayalias(self, a, b):
        ra, rb = (x[1] if isinstance(x, tuple) and x[0] == "a" else x for x in (a, b))
        r = (("v", self.K), ("v", self.M))
        if ra in r and rb in r and ra != rb:
            return False
        if ra == rb == ("v", self.K) and a[0] == b[0] == "a":
            da, db = deep(a), deep(b)
            if da and db and da[0] != db[0]:
                return False
        return Seq._mayalias(self, a, b)

    def chord(self, k, addr, d):
        c = self.chords[k]
        if d[-1] == "sz":
            return len(c)
        if "keys" in d:
            i = idx(addr, "keys")
            return (c[i] if i < len(c) else 0) if isinstance(i, int) else None

    def fresh_load(self, s, addr, ins):
        if not (isinstance(addr, tuple) and addr[0] == "a"):
            return None
        d = deep(addr)
        if not d:
            return None
        if addr[1] == ("v", self.M):
            return self.chord(self.match, addr, d)
        if addr[1] != ("v", self.K):
            return None
        if d[0] == "chord":
            if "queue" in d:
                i = idx(addr, "queue")
                if isinstance(i, int) and i < len(self.q):
                    return self.q[i][0 if d[-1] == "code" else 1] if d[-1] in ("code", "pressed") else None
                return None
            return {"state": self.state, "queue_sz": len(self.q), "match": 0 if self.match is None else ("v", self.M), "last_code_time": self.last}.get(d[-1])
        if d[0] == "active_chords":
            i = idx(addr, "active_chords")
            if not isinstance(i, int):
                return None
            ks = self.active[i] if i < len(self.active) else None
            if d[-1] == "active":
                return int(ks is not None)
            if ks is None:
                return None
            if d[-1] == "sz":
                return len(ks)
            if "keys" in d:
                j = idx(addr, "keys")
                return (ks[j] if j < len(ks) else 0) if isinstance(j, int) else None
            return None
        if d[0] == "layer_state":
            return {"active": int(idx(addr, "layer_state") == 0), "activation_time": 0}.get(d[-1])
        if d[0] == "config":
            if "layers" in d:
                if d[-1] == "nr_chords":
                    return len(self.chords)
                if "chords" in d:
                    k = idx(addr, "chords")
                    return self.chord(k, addr, d) if isinstance(k, int) and k < len(self.chords) else None
                return None
            return {"nr_layers": 1, "chord_interkey_timeout": KEYGAP, "chord_hold_timeout": self.hold}.get(d[-1])
        return None

    def which(self, a):
        """The chord an address is that of."""
        if not isinstance(a, tuple):
            return None
        if a == ("v", self.M) or a[0] == "a" and a[1] == ("v", self.M) and not deep(a):
            return self.match
        if a[0] == "a" and a[1] == ("v", self.K) and deep(a)[-1:] == ["chords"]:
            return idx(a, "chords")

    def memcpy(self, s, dst, src, ins, n):
        w = self.which(src)
        if isinstance(dst, tuple) and dst[0] == "a" and deep(dst)[:1] == ["active_chords"] and deep(dst)[-1] == "chord":
            self.put(s, ("slot", idx(dst, "active_chords"), w))
        Seq.memcpy(self, s, dst, src, ins, n)

    def cell(self, s, *f):
        for (a, w), v in s.mem.items():
            if isinstance(w, int) and isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", self.K) and deep(a) == list(f):
                return v

    def on_inst(self, s, ins):
        n = self.callname(ins)
        if n in (self.ctx.ev.name, *self.ctx.replay):
            args = [self.val(s, o) for o in ins.ops]
            st = self.cell(s, "chord", "state")
            st = self.state if st is None else self.const(s, st)
            k = len(self.get(s, "out"))
            if n == self.ctx.ev.name:
                self.put(s, ("out", k, "event", self.const(s, args[self.ctx.ec]), self.const(s, args[self.ctx.ep]), st))
            else:
                a, c = args[1], self.const(s, args[2])
                off = None
                if isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", self.K) and deep(a) == ["chord", "queue"]:
                    off = idx(a, "queue")
                self.put(s, ("out", k, "replay", off, c, st))
            if st == self.ctx.st["RESOLVING"]:
                self.put(s, ("keep", ins, tuple((k, v) for k, v in s.mem.items() if k[0][0] == "a" and k[0][1] == ("v", self.K) and deep(k[0])[:1] == ["chord"])))
        return Seq.on_inst(self, s, ins)

    def after_inst(self, s, ins):
        for x in self.get(s, "keep"):
            if x[1] is ins:
                s.mem.update(dict(x[2]))
                self.drop(s, lambda y: y == x)

    def extra_key(self, s, block):
        return None

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def roles(ctx):
    if hasattr(ctx, "g"):
        return ctx.g is not None
    m = ctx.mod
    ctx.ms = ms = ModSets(m)
    ctx.ev = ev = event_fn(m)
    ctx.g = None
    ctx.st = {x: m.enum("CHORD_" + x) for x in ("RESOLVING", "INACTIVE", "PENDING_DISAMBIGUATION", "PENDING_HOLD_TIMEOUT")}
    ctx.lo, ctx.hi = m.macro("KEYD_CHORD_1"), m.macro("KEYD_CHORD_MAX")
    callsev = lambda f: any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == ev.name for i in f.insts())
    ctx.replay = {f.name for f in m.fns.values() if f.file == KFILE and callsev(f) and [a.ty.k for a in f.args] == ["ptr", "ptr", "int"]}
    names = [a.name for a in ev.args]
    ints = [i for i, a in enumerate(ev.args) if a.ty.k == "int"]
    ctx.ec = names.index("code") if "code" in names else ints[0]
    ctx.ep = names.index("pressed") if "pressed" in names else ints[1]
    timed = lambda f: any(i.op == "store" and any(x[1] == "timeouts" for x in ms._addr(i.ops[1])[1]) for i in f.insts())
    cand = []
    for f in m.fns.values():
        if f.file == KFILE and f is not ev and any(i.op == "load" and [x[1] for x in ms._addr(i.ops[0])[1]][-2:] == ["chord", "state"] for i in f.insts()):
            cand.append(f)
    calls = lambda f, n: any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == n for i in f.insts())
    if len(cand) > 1:
        cand = [f for f in cand if sorted(a.ty.k for a in f.args) == ["int"] * 3 + ["ptr"] and not any(calls(h, f.name) for h in cand if h is not f)]
    if len(cand) != 1 or sorted(a.ty.k for a in cand[0].args) != ["int"] * 3 + ["ptr"]:
        ctx.undecide("chords", "no single function keeps the state of chords")
        return False
    f = cand[0]
    ctx.g = inline(m, f, lambda c, ch: c.file == KFILE and c.src != ev.name and c.src not in ctx.replay and not timed(c) and c.src != descriptor_fn(m).name)
    ctx.count("state_functions")
    return True


def step(ctx, code, pressed, time, **kw):
    g = ctx.g
    e = Ch(ctx.mod, g, ctx.ms).setup(ctx, **kw)
    ptr = [a for a in g.args if a.ty.k == "ptr"]
    ints = [a for a in g.args if a.ty.k == "int"]

    def seed(s):
        s.env[ptr[0]] = ("v", e.K)
        for a, v in zip(ints, (code, pressed, time)):
            s.env[a] = v
    e.seed = seed
    follow(e, g, ctx.mod)
    e.run()
    ctx.count("steps")
    return e


def outcome(chords, keys):
    full = [k for k, c in enumerate(chords) if set(c) == set(keys)]
    part = any(set(keys) < set(c) for c in chords)
    return (3 if part else 2) if full else (1 if part else 0), full[0] if full else None


def spec(ctx, chords, state, queue, match, hold, code, pressed, dt, slot):
    """(taken?, next state, chord that fires, offset replayed from or None, queue length or None), or None where the manual says nothing."""
    st = ctx.st
    keys = [c for c, p in queue if p]
    n = len(queue)

    def fire(k, n):
        return (1, "INACTIVE", k, len(chords[k]), n) if slot is not None else (1, "INACTIVE", None, 0, n)

    def full(k, n):
        return (1, "PENDING_HOLD_TIMEOUT", None, None, n) if hold else fire(k, n)
    if state == "RESOLVING":
        return (0, "RESOLVING", None, None, n)
    if state == "INACTIVE":
        if not code or not pressed:
            return (0, "INACTIVE", None, None, None)
        o, k = outcome(chords, [code])
        return (1, "PENDING_DISAMBIGUATION", None, None, 1) if o in (1, 3) else (0, "INACTIVE", None, None, None) if not o else full(k, 1)
    if state == "PENDING_DISAMBIGUATION":
        if not code:
            if dt < KEYGAP:
                return (0, state, None, None, n)
            if match is None:
                return (1, "INACTIVE", None, 0, n)
            return (1, "PENDING_HOLD_TIMEOUT", None, None, n) if hold > KEYGAP else fire(match, n)
        if dt >= KEYGAP or pressed and code in keys:
            return None
        if not pressed:
            return (1, "INACTIVE", None, 0, n + 1) if code in keys else None
        o, k = outcome(chords, keys + [code])
        return (1, "INACTIVE", None, 0, n + 1) if not o else (1, state, None, None, n + 1) if o in (1, 3) else full(k, n + 1)
    if not code:
        return (0, state, None, None, n) if dt < hold else fire(match, n)
    if dt >= hold or pressed and code in keys:
        return None
    if not pressed and code in chords[match]:
        return (1, "INACTIVE", None, 0, n + 1)
    return (1, state, None, None, n + 1)


NAMES = {A: "a", B: "b", C: "c", X: "x", Y: "y", 0: "time"}


def table(ctx):
    if not roles(ctx):
        return
    full = tuple((A, B, C) for _ in range(64))
    for (fam, chords), hold in itertools.product(FAM.items(), (0, 30, 120)):
        rows = []
        for st in ("RESOLVING", "INACTIVE"):
            for q, mt in (((), None), (((X, 1), (A, 1)), 0)):
                rows += [(st, q, mt, c, p, 7) for c, p in ((A, 1), (C, 1), (X, 1), (X, 0), (A, 0), (0, 0))]
        three = len(chords[0]) == 3
        two = ((A, 1), (B, 1))
        pend = [(((A, 1),), None)]
        if three:
            pend += [(two, None), (((B, 1), (A, 1)), None)]
        if len(chords) > 1:
            pend += [(two, 0), (((C, 1), (A, 1)), None)]
        for q, mt in pend:
            for dt in (0, KEYGAP - 1):
                rows += [("PENDING_DISAMBIGUATION", q, mt, c, p, dt) for c, p in ((A, 1), (B, 1), (C, 1), (X, 1), (A, 0), (B, 0))]
            rows += [("PENDING_DISAMBIGUATION", q, mt, 0, 0, dt) for dt in (0, KEYGAP - 1, KEYGAP, KEYGAP + 9)]
        if hold:
            for k, c in enumerate(chords):
                for order in (c, c[::-1]):
                    q = tuple((x, 1) for x in order)
                    for q2 in (q, q + ((X, 1),), q + ((X, 1), (X, 0), (Y, 1))):
                        rows += [("PENDING_HOLD_TIMEOUT", q2, k, x, p, dt) for x, p in ((X, 1), (Y, 0), (A, 0), (B, 0), (c[-1], 0), (C, 1)) for dt in (0, hold - 1)
                                 if (x, p) != (Y, 0) or (Y, 1) in q2]
                        rows += [("PENDING_HOLD_TIMEOUT", q2, k, 0, 0, dt) for dt in (0, hold - 1, hold, hold + 9)]
        for st, q, mt, code, pressed, dt in rows:
            for active in ((), ((Y, Y + 1),)) + ((full,) if not hold and dt == 0 else ()):
                slot = len(active) if len(active) < ctx.hi - ctx.lo + 1 else None
                if any(code and code in a for a in active) and not pressed:
                    continue
                want = spec(ctx, chords, st, q, mt, hold, code, pressed, dt, slot)
                if want is None:
                    continue
                judge(ctx, want, slot, fam, chords, hold, st, q, mt, code, pressed, dt, active)


def judge(ctx, want, slot, fam, chords, hold, st, q, mt, code, pressed, dt, active):
    m = ctx.mod
    e = step(ctx, code, pressed, LAST + dt, chords=chords, state=ctx.st[st], queue=q, match=mt, active=active, hold=hold)
    held = " ".join(NAMES[c] + "-+"[p] for c, p in q) or "none"
    event = (NAMES[code] + "-+"[pressed]) if code else "time"
    w = f" ({fam}, hold time {hold}; {st.lower().replace('_', ' ')}, events held back: {held}; then {event} after {dt} ms)"
    taken, nst, fires, off, n = want
    if not e.got:
        ctx.undecide("chords", "no path ends")
    for s, t in e.got:
        path = dict(where=m.loc(t), path=trace_str(s.trace))
        r = e.const(s, e.val(s, t.ops[0]))
        outs = sorted(x[1:] for x in e.get(s, "out"))
        if r is None:
            ctx.undecide("chords", "what becomes of the event is not known")
        elif bool(r) != bool(taken):
            ctx.violation("event", ("the event is held back" if r else "the event is treated as an ordinary one") + w, **path)
        ns = e.cell(s, "chord", "state")
        ns = ctx.st[st] if ns is None else e.const(s, ns)
        if isinstance(ns, int) and ns != ctx.st[nst]:
            ctx.violation("state", f"the chord becomes `{next((k for k, v in ctx.st.items() if v == ns), ns)}` instead of `{nst}`".lower().replace("_", " ") + w, **path)
        fired = [x for x in outs if x[1] == "event"]
        rep = [x for x in outs if x[1] == "replay" and x[3] != 0]
        if any(isinstance(x[4], int) and x[4] != ctx.st["RESOLVING"] for x in fired + rep):
            ctx.violation("again", "the events are carried out while they may still be taken for the keys of a chord" + w, **path)
        if fires is None and fired:
            ctx.violation("fires", "the chord fires" + w, **path)
        elif fires is not None and not fired:
            ctx.violation("lost", "the chord does not fire" + w, **path)
        elif fires is not None:
            if len(fired) != 1 or fired[0][3] not in (1, None):
                ctx.violation("fires", "the chord is not carried out once" + w, **path)
            if isinstance(fired[0][2], int) and fired[0][2] != ctx.lo + slot:
                ctx.violation("code", f"the chord is carried out as chord {fired[0][2] - ctx.lo} instead of {slot}" + w, **path)
            sl = e.get(s, "slot")
            if not sl or any(isinstance(x[1], int) and x[1] != slot for x in sl):
                ctx.violation("slot", "the chord is not kept where it is looked for" + w, **path)
            elif any(isinstance(x[2], int) and x[2] != fires for x in sl):
                ctx.violation("which", f"another chord ({sl[0][2]}) than the one struck ({fires}) fires" + w, **path)
            if rep and rep[0][0] < fired[0][0]:
                ctx.violation("order", "the events held back go before the chord" + w, **path)
        if off is None:
            if rep:
                ctx.violation("replayed", "the events held back are replayed" + w, **path)
            qs = e.cell(s, "chord", "queue_sz")
            qs = len(q) if qs is None else e.const(s, qs)
            if n is not None and isinstance(qs, int) and qs != n:
                ctx.violation("queue", f"{qs} events are held back instead of {n}" + w, **path)
            if taken and code and n and e.got:
                for f, v in (("code", code), ("pressed", pressed)):
                    x = next((v2 for (a, wd), v2 in s.mem.items() if isinstance(wd, int) and isinstance(a, tuple) and a[0] == "a" and deep(a) == ["chord", "queue", f] and idx(a, "queue") == n - 1), None)
                    if isinstance(x, int) and x != v:
                        ctx.violation("queue", "the event is held back as another one" + w, **path)
            if nst != "INACTIVE" and taken and code:
                l = e.cell(s, "chord", "last_code_time")
                l = LAST if l is None else e.const(s, l)
                if isinstance(l, int) and l != (LAST + dt if st != "PENDING_HOLD_TIMEOUT" else LAST):
                    ctx.violation("time", "the time of the last key of the chord is not what the next bound is counted from" + w, **path)
            if st != "RESOLVING" and nst != "INACTIVE":
                mv = e.cell(s, "chord", "match")
                o, k = outcome(chords, [c for c, p in q if p] + [code]) if code and pressed and st != "PENDING_HOLD_TIMEOUT" else (0, None)
                if k is None:
                    k = mt if st != "INACTIVE" else None
                got = mt if mv is None else None if e.is0(s, mv) is True else e.which(mv)
                if got != k and (mv is None or e.is0(s, mv) is True or got is not None):
                    ctx.violation("match", "the chord to be carried out is not the one that has been struck" + w, **path)
        else:
            want_n = n - off
            if want_n and not rep:
                ctx.violation("dropped", "the events held back are lost" + w, **path)
            if len(rep) > 1:
                ctx.violation("replayed", "the events held back are replayed more than once" + w, **path)
            for x in rep[:1]:
                if isinstance(x[2], int) and x[2] != off:
                    ctx.violation("replayed", f"the events held back are replayed from the {x[2] + 1}. instead of the {off + 1}." + w, **path)
                if isinstance(x[3], int) and x[3] != want_n:
                    ctx.violation("replayed", f"{x[3]} of the events held back are replayed instead of {want_n}" + w, **path)


def releases(ctx):
    """The keys of chords that have fired."""
    if not roles(ctx):
        return
    m = ctx.mod
    cases = []
    for st in ctx.st:
        for act, code, slot, rest in [(((A, B),), A, 0, [B]), (((A, B),), B, 0, [A]), (((0, B),), B, 0, []), (((A, 0),), A, 0, []), (((A, B, C),), B, 0, [A, C]),
                                      (((A, 0, C),), C, 0, [A]), (((0, 0, C),), C, 0, []), (((A, B), (X, Y)), Y, 1, [X]), (((A, B), (X, 0)), X, 1, []),
                                      ((None, (X, 0)), X, 1, []), ((None, None, (X, Y)), X, 2, [Y]), (((A, B), (X, Y)), C, None, []), ((None,), A, None, [])]:
            if st == "PENDING_HOLD_TIMEOUT" and slot is None:
                continue
            cases.append((st, act, code, slot, rest))
    for st, act, code, slot, rest in cases:
        if slot is None and st != "INACTIVE":
            continue
        e = step(ctx, code, 0, LAST, chords=((A, B),), state=ctx.st[st], queue=((A, 1), (B, 1)) if st == "PENDING_HOLD_TIMEOUT" else (), match=0 if st == "PENDING_HOLD_TIMEOUT" else None, active=act, hold=30)
        w = f" (chords that have fired: {['+'.join(NAMES[k] if k else 'released' for k in a) if a else 'none' for a in act]}; then {NAMES[code]}-, {st.lower().replace('_', ' ')})"
        if not e.got:
            ctx.undecide("release", "no path ends")
        for s, t in e.got:
            path = dict(where=m.loc(t), path=trace_str(s.trace))
            r = e.const(s, e.val(s, t.ops[0]))
            outs = [x[1:] for x in e.get(s, "out")]
            if isinstance(r, int) and bool(r) != (slot is not None):
                ctx.violation("release-event", ("the release of a key of the chord becomes an ordinary event" if not r else "the release of an ordinary key is swallowed") + w, **path)
            up = [x for x in outs if x[1] == "event"]
            if slot is not None and not rest:
                if not up:
                    ctx.violation("release-lost", "the last key of the chord is released and its action is not" + w, **path)
                elif up[0][2] is not None and up[0][2] != ctx.lo + slot or up[0][3] not in (0, None):
                    ctx.violation("release-code", "another action is released than that of the chord" + w, **path)
                a = next((v for (x, _), v in s.mem.items() if isinstance(x, tuple) and x[0] == "a" and deep(x) == ["active_chords", "active"] and idx(x, "active_chords") == slot), None)
            elif up:
                ctx.violation("release-early", "the chord's action is released while keys of it are held" + w, **path)
            if slot is not None and rest:
                gone = [v for (x, _), v in s.mem.items() if isinstance(x, tuple) and x[0] == "a" and deep(x)[-1:] == ["keys"] and deep(x)[:1] == ["active_chords"] and idx(x, "active_chords") == slot and act[slot][idx(x, "keys") or 0] == code]
                if not gone or any(isinstance(v, int) and v for v in gone):
                    ctx.violation("release-note", "the release is not noted" + w, **path)
        ctx.count("releases")


def matching(ctx):
    """Every order and subset of the keys of larger chords, from the first key on."""
    if not roles(ctx):
        return
    m = ctx.mod
    for n in range(2, 9):
        c = tuple(range(40, 40 + n))
        orders = list(itertools.permutations(c)) if n < 4 else [c, c[::-1], c[1:] + c[:1], c[::2] + c[1::2]]
        for order in orders:
            for k in range(1, n):
                q = tuple((x, 1) for x in order[:k])
                for code, want in ((order[k], "INACTIVE" if k + 1 == n else "PENDING_DISAMBIGUATION"), (X, "INACTIVE")):
                    e = step(ctx, code, 1, LAST + 5, chords=(c,), state=ctx.st["PENDING_DISAMBIGUATION"], queue=q, hold=0)
                    for s, t in e.got:
                        path = dict(where=m.loc(t), path=trace_str(s.trace))
                        fired = any(x[2] == "event" for x in e.get(s, "out"))
                        w = f" (a chord of {n} keys, {k + (code != X)} of them struck in the order {[x - 39 for x in order[:k + (code != X)]]}" + (", and another key)" if code == X else ")")
                        if fired and (code == X or k + 1 < n):
                            ctx.violation("matching", "a chord fires which has not been struck" + w, **path)
                        if not fired and code != X and k + 1 == n:
                            ctx.violation("matching", "a chord does not fire which has been struck" + w, **path)
                        ns = e.cell(s, "chord", "state")
                        ns = ctx.st["PENDING_DISAMBIGUATION"] if ns is None else e.const(s, ns)
                        if isinstance(ns, int) and ns != ctx.st[want]:
                            ctx.violation("matching", ("the chord is not given up" if want == "INACTIVE" else "the chord is given up") + w, **path)
    ctx.count("chord_sizes", 7)


def run(ctx):
    ctx.rule("each state, event and time leads to the state and the deeds the manual's rule for chords gives", table)
    ctx.rule("a chord's action is released with the last of its keys, whose releases are not ordinary ones", releases)
    ctx.rule("exactly the keys of a chord, in any order, make it fire", matching)
