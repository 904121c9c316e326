"""C24: descriptors. Every function that opens or closes a descriptor (files, directories, sockets, connections, devices, inotify) is simulated, together with the
functions it hands the descriptor to or obtains it from (summaries decide how far up the call graph a descriptor travels). The typestate of each value: open,
handed over (stored in a long-lived structure or returned), closed. Obligations: closed or handed over on every path that leaves its scope and before the same
call opens the next one; closed at most once; not used after being closed; a structure does not keep a descriptor that was closed; a worker that reports
failure keeps nothing open; the table of devices loses no entry that is still open. Paths ending in process exit are exempt, as are the command-line entry points."""
from seq import *
import c29

CI = ("open", "open64", "openat", "openat64", "creat", "socket", "accept", "accept4", "inotify_init", "inotify_init1", "dup", "eventfd", "timerfd_create", "epoll_create", "epoll_create1",
      "memfd_create")
CP = ("opendir", "fopen", "fopen64", "popen")
CL = ("close", "closedir", "fclose", "pclose")
ALL = set(CI) | set(CP) | set(CL)


def direct(m, f):
    return any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ALL or
               i.op == "store" and isinstance(i.ops[0], Const) and i.ops[0].ty.k == "int" and i.ops[0].v < 0 and isinstance(i.ops[1], Inst) and i.ops[1].op == "getelementptr" and
               "fd" in str(ModSets(m)._addr(i.ops[1])[1][-1:]) for i in f.insts())


class Fd(Seq):
    max_states = 1500000

    def __init__(self, mod, fn, ms=None):
        self.ret_open = self.arg_kept = self.arg_closed = False
        self.opened, self.closedsites, self.held, self.frees = {}, set(), set(), []
        Seq.__init__(self, mod, fn, ms)

    # ---- values
    def st(self, s, v):
        return {x[0] for x in s.auto if len(x) > 1 and x[1] == v}

    def create(self, s, ins, args):
        k = self.origin(ins)
        for x in self.get(s, "open"):
            if x[2] == k and contains_stale(x[1]):
                self.report(s, ins, "again-" + x[2], f"{x[2]}() is called again while the descriptor of the previous call is neither closed nor kept")
                self.drop(s, lambda y: y == x)
        self.opened.setdefault(ins, set())

    def after_inst(self, s, ins):
        if ins in self.opened:
            self.put(s, ("open", ("v", ins), self.origin(ins)))

    def origin(self, ins):
        return ins.callee.name

    def close_(self, s, ins, args):
        v = args[0]
        self.closedsites.add(ins)
        t = self.st(s, v)
        if "closed" in t:
            self.report(s, ins, "twice", "a descriptor is closed twice")
        if isinstance(v, int):
            return
        self.drop(s, lambda x: x[0] == "open" and x[1] == v)
        self.put(s, ("closed", v))
        for a in self.cells(s, v):
            self.put(s, ("cell", v, a))
            if self.outer(a):
                self.arg_closed = True
        if self.outer(v):
            self.arg_closed = True
    call_close = call_closedir = call_fclose = call_pclose = close_

    def outer(self, a):
        """Does this value or address derive from a parameter?"""
        if isinstance(a, tuple):
            if a[0] == "v":
                return isinstance(a[1], Arg)
            if a[0] == "a":
                return self.outer(a[1])
        return False

    def on_inst(self, s, ins):
        n = self.callname(ins)
        if n in CI or n in CP:
            if ins.block in self.scc:
                self.kill(s, ins)
                s.env.pop(ins, None)
            self.events += 1
            return self.create(s, ins, [])
        if n and n.startswith("llvm.mem"):
            if "cpy" in n or "move" in n:
                self.moved(s, ins, self.val(s, ins.ops[0]), self.val(s, ins.ops[1]))
            return None
        return Seq.on_inst(self, s, ins)

    def on_branch(self, s, t, c, want):
        for x in self.get(s, "open"):
            if contains_stale(x[1]):
                continue
            r = self.rng(s, x[1])
            if r[1] < 0 or isinstance(x[1][1], Inst) and x[1][1].ty.k == "ptr" and self.const(s, x[1]) == 0:
                self.drop(s, lambda y: y == x)

    def local(self, a):
        return isinstance(a, tuple) and a[0] == "a" and a[1][0] == "al"

    def keep(self, s, ins, v, addr):
        if "closed" in self.st(s, v):
            self.report(s, ins, "keep-closed", "a descriptor is kept although it was closed")
        hit = [x for x in s.auto if x[0] == "open" and x[1] == v]
        if hit or self.outer(v):
            if self.outer(addr):
                self.arg_kept = True
            if hit and addr[2] and addr[2][-1][0] == "f":
                self.held.add(addr[2][-1][1:])
            for x in hit:
                self.drop(s, lambda y: y == x)
                self.put(s, ("kept", v))

    def on_store(self, s, ins, addr, v):
        addr = self._adr(addr)
        if isinstance(addr, tuple) and addr[0] == "a" and not self.local(addr) and ins.ops[0].ty.k in ("int", "ptr"):
            old = peek(self, s, addr, 4)
            k = self.const(s, v)
            self.drop(s, lambda x: x[0] == "cell" and x[2] == addr)
            if k is not None and lastfield(addr) == ("device_event", "type"):
                self.drop(s, lambda x: x[0] == "kind")
                self.put(s, ("kind", k))            # keeps the kinds of event apart until the next one is read
            if (lastfield(addr) or ("",))[-1] == "fd" and old is not None and old != v and "kept" in self.st(s, old) and "closed" not in self.st(s, old):
                self.report(s, ins, "overwrite", "a structure's open descriptor is overwritten")
            if k is None:
                self.keep(s, ins, v, addr)
            elif (lastfield(addr) or ("",))[-1] == "fd" and isinstance(old, tuple) and self.rng(s, v)[1] < 0 and self.rng(s, old)[1] >= 0 and "closed" not in self.st(s, old):
                self.put(s, ("open", old, "field"))      # forgotten: must be closed yet
                self.drop(s, lambda x: x == ("kept", old))
        elif self.local(addr):
            self.drop(s, lambda x: x[0] == "cell" and x[2] == addr)

    def moved(self, s, ins, dst, src):
        """A structure is copied: what it holds is handed over if the destination outlives the function."""
        if not isinstance(src, tuple):
            return
        r = (src[1], src[2]) if src[0] == "a" else (src, ())
        for (a, w), v in list(s.mem.items()):
            if w != "agg" and a[1] == r[0] and a[2][:len(r[1])] == r[1] and not self.local(dst):
                if any(x[0] == "open" and x[1] == v for x in s.auto):
                    d = (dst[1], dst[2]) if isinstance(dst, tuple) and dst[0] == "a" else (dst, ())
                    self.keep(s, ins, v, ("a", d[0], d[1]))
                elif "closed" in self.st(s, v) and (lastfield(a) or ("",))[-1] == "fd":
                    self.report(s, ins, "copy-closed", "a structure is kept although its descriptor was closed")

    def _mentioned(self, s, ins):
        return Seq._mentioned(self, s, ins) or any(contains(x, ("v", ins)) for x in s.auto)

    def cells(self, s, v):
        """The fields of long-lived structures known to hold v."""
        return [a for (a, w), x in s.mem.items() if x == v and w != "agg" and isinstance(a, tuple) and a[0] == "a" and a[2] and a[2][-1][0] == "f" and not self.local(a)]

    def rename(self, auto, tok, stale):
        out = set()
        for x in auto:
            y = subst(x, tok, stale)
            if y != x and x[0] in ("closed", "kept"):
                continue
            if y != x and x[0] == "cell":
                y = ("cell", None, None)
            out.add(y)
        return frozenset(out)

    def settled(self, s, ins):
        for x in [x for x in s.auto if x[0] == "cell"]:
            self.report(s, ins, "dangling", "a structure still holds a descriptor that was closed")
        for x in self.get(s, "open"):
            if ins.op != "ret" and not any(isinstance(v, tuple) and contains(v, x[1]) for v in list(s.env.values()) + list(s.mem.values())):
                self.report(s, ins, "forgotten", "a descriptor from " + x[2].replace("field", "a structure") + " is forgotten without being closed")
                self.drop(s, lambda y: y == x)

    def on_other(self, s, ins, args, name):
        if name == "free":
            a = args[0]
            b = a[1] if isinstance(a, tuple) and a[0] == "a" else a
            cl = {x[2][2][-1][1:] for x in s.auto if x[0] == "cell" and x[2] and x[2][1] == b}
            cl |= {a[2][-1][1:] for (a, w), v in s.mem.items() if w == 4 and a[0] == "a" and a[1] == b and a[2] and a[2][-1][0] == "f" and self.rng(s, v)[1] < 0} if cl else set()
            if cl:
                self.frees.append((cl, ins, trace_str(s.trace)))
            self.drop(s, lambda x: x[0] == "cell" and x[2] and x[2][1] == (a[1] if isinstance(a, tuple) and a[0] == "a" else a))
            return
        if name in ("flock", "lockf"):
            for x in self.get(s, "open"):       # the lock is held for as long as the process lives
                if x[1] == args[0]:
                    self.drop(s, lambda y: y == x)
                    self.put(s, ("kept", x[1]))
        if name in ("poll", "ppoll", "select", "read"):
            self.drop(s, lambda x: x[0] == "kind")
        if name in ("poll", "ppoll", "select"):
            self.settled(s, ins)
        if name.startswith("llvm."):
            return
        for a in args:
            if isinstance(a, tuple) and "closed" in self.st(s, a) and not contains_stale(a):
                self.report(s, ins, "use", f"a descriptor is passed to {name} after it was closed")

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op != "ret":
            return
        rv = self.val(s, t.ops[0]) if t.ops else None
        if rv is not None and any(x[0] == "open" and x[1] == rv for x in s.auto):
            self.ret_open = True
            self.drop(s, lambda x: x[0] == "open" and x[1] == rv)
        if rv is not None and "closed" in self.st(s, rv) and self.fn.ret.k != "void":
            if not isinstance(rv, int) and not self.const(s, rv) is not None:
                self.report(s, t, "return-closed", "a descriptor is returned although it was closed")
        self.atret(s, t, rv)

    def atret(self, s, t, rv):
        for x in self.get(s, "open"):
            self.report(s, t, "leak-" + x[2], f"a path leaves {self.fn.src}() with the descriptor from {x[2].replace('field', 'a structure')} neither closed nor kept")
        self.settled(s, t)
        if rv is not None and t.ops[0].ty.k == "ptr" and self.const(s, rv) == 0:
            for x in self.get(s, "kept"):
                if "closed" not in self.st(s, x[1]):
                    self.report(s, t, "failed-kept", f"{self.fn.src}() reports failure although it keeps a descriptor open")


class Sum:
    def __init__(self):
        self.transfer, self.engine, self.leaky = False, None, False


def scopes(ctx):
    m = ctx.mod
    ms = ModSets(m)
    memo = {}

    def summ(f):
        if f.name in memo:
            return memo[f.name]
        memo[f.name] = r = Sum()          # recursion: assume self-contained
        callees = {m.fns[i.callee.name] for i in f.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns}
        if not [c for c in callees if summ(c).transfer] and not direct(m, f):
            return r

        def want(c, ch):
            return c.name in memo and memo[c.name].transfer
        want.vararg = True
        e = r.engine = Fd(m, inline(m, f, want), ms)
        e.run()
        r.leaky = any(k.startswith("leak-") for k, *_ in e.bad)
        # a helper that leaves a descriptor open is judged together with its callers (they may be about to end the process)
        r.transfer = e.ret_open or e.arg_kept or e.arg_closed or r.leaky and not any(memo[c.name].leaky for c in callees if c.name in memo)
        return r
    for f in list(m.fns.values()):
        summ(f)
    sites = {}
    for f in m.fns.values():
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in CI + CP:
                sites[m.loc(i)] = i
    seen = set()
    for f in m.fns.values():
        r = memo[f.name]
        if r.engine is None:
            continue
        e = r.engine
        ctx.count("functions")
        ctx.count("events", e.events)
        ctx.count("states", sum(len(x) for x in e.states.values()))
        ctx.count("exits", len(e.exits))
        seen |= {m.loc(i) for i in e.opened}
        handed = r.transfer and callers(m, f.name)
        for key, msg, ins, tr in e.bad:
            if key.startswith("leak-") and (handed or entry(m, f)) or key == "dangling" and handed or key == "failed-kept" and not thread(m, f):
                continue
            ctx.violation(key, msg, m.where(ins), tr)
        ctx.sample(f"{f.src}: {len(e.exits)} exits, {len(e.opened)} open sites, {len(e.closedsites)} close sites" + (", hands descriptors on" if r.transfer else ""))
    held = set().union(*[r.engine.held for r in memo.values() if r.engine])
    for r in memo.values():
        for cl, ins, tr in r.engine.frees if r.engine else ():
            ctx.count("frees")
            for h in held - cl:
                if h[0] in {c[0] for c in cl}:
                    ctx.violation("free-" + h[1], f"a {h[0]} is freed while its descriptor {h[1]} is still open", m.where(ins), tr)
    ctx.count("open_sites", len(sites))
    for l in sites:
        if l not in seen:
            ctx.undecide(l, "not reached by the simulation")
    return memo


def thread(m, f):
    return not callers(m, f.name)


def entry(m, f):
    """Entry points whose return ends the process: main, what only main calls, and the commands it dispatches to."""
    if f.src == "main":
        return True
    cs = callers(m, f.name)
    if cs:
        return all(c.src == "main" for c, _ in cs)
    return any(g.const is False and isinstance(g.init, object) and f.name in table(g) for g in m.globals.values())


def table(g):
    out, st = set(), [g.init]
    while st:
        x = st.pop()
        if isinstance(x, GRef):
            out.add(x.name)
        elif hasattr(x, "elems"):
            st += x.elems
    return out


TAB, CNT = "device_table", "device_table_sz"


class Table(Seq):
    split_flags = False
    """The table of devices in the event loop: additions are counted, compaction loses no open entry."""
    def idx(self, a):
        if isinstance(a, tuple) and a[0] == "a" and a[1] == ("g", TAB) and all(p[0] == "x" for p in a[2]):
            return a[2][0][1] if a[2] else 0
        return None

    def _mentioned(self, s, ins):
        return Seq._mentioned(self, s, ins) or any(contains(x, ("v", ins)) for x in s.auto)

    def count(self, s):
        return peek(self, s, ("a", ("g", CNT), ()), 8)

    def on_inst(self, s, ins):
        n = self.callname(ins)
        if n and (n.startswith("llvm.memcpy") or n.startswith("llvm.memmove")):
            d, r = self.val(s, ins.ops[0]), self.val(s, ins.ops[1])
            di, ri = self.idx(d), self.idx(r)
            if di is not None and ri is not None:
                self.events += 1
                self.put(s, ("copied", di, ri))
            elif di is not None and isinstance(r, tuple) and r[0] == "a" and r[1][0] == "al":
                self.events += 1
                self.lost(s, ins)
                c = self.count(s)
                if c is None or self.decide(s, "eq", c, add(di, 1)) is not True:
                    self.put(s, ("new", di))
            return None
        return Seq.on_inst(self, s, ins)

    def on_store(self, s, ins, addr, v):
        if addr == ("a", ("g", CNT), ()):
            for x in self.get(s, "new"):
                if self.decide(s, "eq", v, add(x[1], 1)) is True:
                    self.drop(s, lambda y: y == x)

    def lost(self, s, ins):
        if self.get(s, "new"):
            self.report(s, ins, "table-uncounted", "a device is put in the table but not counted: its descriptor is lost")
            self.drop(s, lambda x: x[0] == "new")

    def call_poll(self, s, ins, args):
        self.lost(s, ins)
    call_ppoll = call_select = call_poll

    def rename(self, auto, tok, stale):
        return frozenset(y for y in Seq.rename(self, auto, tok, stale) if not (y[0] == "copied" and contains_stale(y)))

    def _edge(self, s, b, tgt, t, heap, w):
        for h, i, n in self.comp:
            if tgt is h:
                if b in self.body[h]:
                    nx = dict((blk, v) for v, blk in n.incoming)[b]
                    ci, cn, nn = self.val(s, i), self.val(s, n), self.val(s, nx)
                    cp = self.get(s, "copied")
                    self.judged += 1
                    if cp:
                        if any(x[2] != ci or x[1] != cn for x in cp) or nn != add(cn, 1):
                            self.report(s, t, "table-copy", "compacting the device table moves an entry to the wrong place: a descriptor is lost or doubled")
                    else:
                        fd = peek(self, s, ("a", ("g", TAB), ((("x", ci),) if ci != 0 else ()) + (("f", "device", "fd"),)), 4)
                        if fd is None or self.rng(s, fd)[1] >= 0:
                            self.report(s, t, "table-drop", "an entry whose descriptor may still be open is dropped from the device table")
                        if nn != cn:
                            self.report(s, t, "table-gap", "compacting the device table leaves a gap")
                self.drop(s, lambda x: x[0] == "copied")
        return Seq._edge(self, s, b, tgt, t, heap, w)


def devices(ctx):
    m = ctx.mod
    ctx.need(TAB in m.globals and CNT in m.globals, "the device table is not found")
    for f in m.fns.values():
        g = inline(m, f, lambda c, ch: c.file == f.file and (uses(c, TAB) or uses(c, CNT)))
        if not any(i.op == "store" and isinstance(i.ops[1], GRef) and i.ops[1].name == CNT for i in g.insts()) or any(c.file == f.file for c, _ in callers(m, f.name)):
            continue
        ctx.count("table_writers")
        cfg = CFG(g)
        e = Table(m, g)
        e.comp, e.body, e.judged = [], {}, 0
        for i in g.insts():
            if i.op == "store" and isinstance(i.ops[1], GRef) and i.ops[1].name == CNT:
                v = i.ops[0]
                while isinstance(v, Inst) and v.op == "phi" and len(v.incoming) == 1:
                    v = v.incoming[0][0]
                if isinstance(v, Inst) and v.op == "phi" and v.block in cfg.loops:
                    h = v.block
                    for p, init, step in cfg.counted(h):
                        if p is v or not cfg.bound(h, p):
                            continue
                        # the loop looks at every entry: from the first to the last, leaving only at the bound
                        ctx.count("compactions")
                        if not (isinstance(init, Const) and init.v == 0 and step == 1):
                            ctx.violation("table-start", "compacting the device table skips entries", m.where(i))
                        ok = {b for b, *_ in cfg.bound(h, p)}
                        for b, s in cfg.exits(h):
                            if b not in ok:
                                ctx.violation("table-break", "compacting the device table may stop before the last entry", m.where(b.insts[-1]))
                        for b, pred, x, off in cfg.bound(h, p):
                            if isinstance(x, Inst) and x.op in ("add", "sub") and isinstance(x.ops[1], Const):
                                ctx.violation("table-bound", "compacting the device table leaves out the last entry", m.where(i))
                        for q, blk in v.incoming:
                            if blk not in cfg.loops[h] and not (isinstance(q, Const) and q.v == 0):
                                ctx.violation("table-gap", "compacting the device table leaves a gap", m.where(i))
                        e.comp.append((h, p, v))
                        e.body[h] = cfg.loops[h]
                        e.inductive = set(e.inductive) | {v, p}
                        break
        e.run()
        e.flush(ctx)
        ctx.count("iterations_judged", e.judged)


def uses(f, name):
    return any(isinstance(o, GRef) and o.name == name for i in f.insts() for o in i.ops) or any(name in str(getattr(o, "__dict__", "")) for i in f.insts() for o in i.ops if not isinstance(o, (Inst, Arg, GRef, Const)))


class Scan(Seq):
    """The start-up scan: the result of every worker that succeeded is put in the caller's table and counted; every worker is waited for."""
    def initial(self):
        return frozenset()

    def _mentioned(self, s, ins):
        return Seq._mentioned(self, s, ins) or any(contains(x, ("v", ins)) for x in s.auto)

    def call_pthread_join(self, s, ins, args):
        self.miss(s, ins)
        self.put(s, ("joined", args[1]))
        self.events += 1

    def miss(self, s, ins):
        for x in self.get(s, "res"):
            if self.const(s, x[1]) != 0:
                self.report(s, ins, "scan-lost", "a device opened at start-up is not put in the table: its descriptor is lost")
        self.drop(s, lambda x: x[0] in ("res", "joined"))

    def after_inst(self, s, ins):
        if ins.op == "load" and ins.ty.k == "ptr":
            a = self.val(s, ins.ops[0])
            for x in self.get(s, "joined"):
                if x[1] == a:
                    self.put(s, ("res", s.env[ins]))

    def on_branch(self, s, t, c, want):
        for x in self.get(s, "res"):
            if self.const(s, x[1]) == 0:
                self.drop(s, lambda y: y == x)

    def on_inst(self, s, ins):
        n = self.callname(ins)
        if n and n.startswith("llvm.memcpy") and self.get(s, "res"):
            d = self.val(s, ins.ops[0])
            if isinstance(d, tuple) and (d[0] == "v" and isinstance(d[1], Arg) or d[0] == "a" and d[1][0] == "v" and isinstance(d[1][1], Arg)):
                self.drop(s, lambda x: x[0] in ("res", "joined"))
                self.events += 1
        return Seq.on_inst(self, s, ins)

    def on_exit(self, s, t):
        if t.op == "ret":
            self.miss(s, t)


def scan(ctx):
    m = ctx.mod
    n = 0
    for f in m.fns.values():
        if any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "pthread_join" for i in f.insts()):
            e = Scan(m, inline(m, f, lambda c, ch: False))
            e.run()
            e.flush(ctx)
            n += 1
    ctx.count("scans", n)


def run(ctx):
    ctx.rule("every descriptor is closed or handed over exactly once on every path, and not used afterwards", scopes)
    ctx.rule("a listener's connection is closed exactly if it does not stay registered", c29.fanout)
    ctx.rule("the device table counts every device put in it and keeps every one that is still open", devices)
    ctx.rule("every device opened by the start-up scan reaches the table", scan)
