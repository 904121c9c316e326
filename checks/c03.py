"""C03: nothing ends or wedges the daemon. All functions reachable from the daemon's event handler and the event loop's body are collected (callbacks
included). Each call that ends the process is simulated to find what it depends on: it is excused only in a forked child, after a failure of the output
device, of the configuration directory or of memory, or in the panic sequence (helper functions take the excuse of all their callers). Loops around reading
calls are followed with failing and empty reads: no read may be repeated. Every way round every loop must change something the loop looks at. Client sockets are followed from accept() to every blocking call. Loops without an
exit, waits for running children, blocking descriptors of devices and unignored SIGPIPE are searched for."""
from seq import *
from cfg import CFG
from c20 import follow
import c28

ASSUMPTIONS = ["C library and kernel calls behave as documented; the asserted invariants listed in the evidence are decided under C02, C06, C13 and C24"]
ENDS = {"exit", "_exit", "_Exit", "abort", "__assert_fail", "raise", "quick_exit", "kill", "pthread_exit", "err", "errx", "__stack_chk_fail_", "__fortify_fail", "execve", "longjmp"}
READS = {"read", "recv", "recvfrom", "recvmsg", "fread", "getline", "fgets", "getc", "fgetc", "readv", "pread"}
OPENS = {"open", "open64", "openat", "fopen", "fopen64", "fdopen", "accept", "accept4", "dup", "close", "fclose"}
POLLS = {"ioctl", "usleep", "nanosleep", "sleep", "clock_gettime", "clock_nanosleep", "sched_yield", "time", "gettimeofday", "access", "stat", "lstat"}
WRITES = {"write", "send", "sendto", "sendmsg", "writev", "dprintf"}
WAITS = {"wait", "waitpid", "wait3", "wait4", "waitid", "pause", "sigwait", "sigsuspend", "pthread_join", "pclose", "system", "sem_wait", "getchar", "lockf", "tcdrain", "pthread_cond_wait"}
DAEMON = "src/daemon.c"


def handlers(ctx):
    """Functions of the daemon called on every event."""
    m = ctx.mod
    out = []
    for f, i in callers(m, "evloop"):
        if f.file == DAEMON or any(h.file == DAEMON for h in [f]):
            h = m.fns.get(strip(i.ops[0]).name) if isinstance(strip(i.ops[0]), GRef) else None
            if h is not None and h not in out:
                out.append(h)
    return out


def grefs(o):
    o = strip(o)
    if isinstance(o, GRef):
        return [o.name]
    if isinstance(o, CExpr):
        return [n for x in o.ops for n in grefs(x)]
    if isinstance(o, Agg):
        return [n for x in o.elems for n in grefs(x)]
    return []


def loopblocks(f):
    """Blocks in or after a loop that contains poll()."""
    heads = [i.block for i in f.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("poll", "ppoll", "epoll_wait", "select")]
    out, work = set(), list(heads)
    while work:
        b = work.pop()
        if b in out:
            continue
        out.add(b)
        t = b.insts[-1]
        for x in t.targets or []:
            work.append(x)
    return out


def running(ctx):
    """(functions that run while the daemon handles events, {evloop's function: blocks of the loop})."""
    m = ctx.mod
    if hasattr(m, "_c03"):
        return m._c03
    hs = handlers(ctx)
    ctx.need(hs, "the event handler of the daemon was not found")
    ev = ctx.need(m.fn("evloop"), "evloop not found")
    body = loopblocks(ev)
    ctx.need(body, "the event loop waits for nothing")
    seen, work = {}, list(hs)
    exits = set()
    for g in m.fns.values():      # what runs at the end of the process
        for i in g.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("atexit", "signal", "sigaction"):
                exits |= {n for o in i.ops for n in grefs(o)}

    def push(n):
        f = m.fns.get(n)
        if f is not None and f.name not in seen and f not in work and n not in exits:
            work.append(f)

    def scan(insts):
        for i in insts:
            if i.op == "call" and isinstance(i.callee, GRef):
                if i.callee.name in ("atexit", "signal", "sigaction"):
                    continue
                push(i.callee.name)
            for o in i.ops:
                for n in grefs(o):
                    if n in m.fns:
                        push(n)
                    elif n in m.globals and m.globals[n].init is not None:
                        for k in grefs(m.globals[n].init):
                            if k in m.fns:
                                push(k)
    scan([i for b in body for i in b.insts])
    while work:
        f = work.pop()
        seen[f.name] = f
        scan(f.insts())
    m._c03 = (seen, ev, body)
    return m._c03


# ---------------------------------------------------------------- ends

class Ends(Seq):
    """tags ('fork', 0) ('failed', call) ('on', atom) - atoms of the conditions taken, newest counted"""

    def setup(self, sites, vkbd):
        self.sites, self.vkbd, self.got = sites, vkbd, {}
        return self

    def on_other(self, s, ins, args, n):
        if ins in self.sites:
            self.got.setdefault(ins, []).append((self.excuse(s), s))
            return False
        if n == "fork" or n == "vfork":
            out = []
            for v in (-1, 0, ("v", Sym("pid", 32, (1, 1 << 30, frozenset())))):
                t = s.copy()
                self.put(t, ("force", ins, v))
                if v == 0:
                    self.put(t, ("child",))
                out.append(t)
            return out
        if n == "opendir" or n in ("malloc", "calloc", "realloc", "strdup", "strndup", "asprintf"):
            out = []
            for v in (0, ("v", Sym(n, 64, (1, 1 << 62, frozenset())))):
                t = s.copy()
                self.put(t, ("force", ins, v))
                if v == 0:
                    self.put(t, ("failed", n))
                out.append(t)
            return out
        if self.vkbd and n in ("write", "ioctl", "open", "open64", "writev", "pthread_create", "pthread_mutex_init", "pthread_mutex_lock", "read"):
            self.put(s, ("res", n, ("v", ins)))

    def on_indirect(self, s, ins, args):
        return None

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)

    def excuse(self, s):
        if self.get(s, "child"):
            return "child"
        for x in self.get(s, "failed"):
            return x[1]
        for x in self.get(s, "res"):
            if isinstance(x[2], tuple):
                l, h, ex = self.rng(s, x[2])
                if h < 0 or x[1].startswith("pthread") and 0 in ex or self.short(s, x[2]):
                    return "output device"
        return None

    def short(self, s, v):
        """A write that was not carried out in full."""
        for k, t in s.facts.items():
            if isinstance(k, tuple) and k[0] == "cmp" and v in (k[2], k[3]) and isinstance(k[2 if k[3] == v else 3], int):
                if k[1] in ("ne", "eq") and (k[1] == "ne") == bool(t):
                    return True
        l, h, ex = self.rng(s, v)
        return any(isinstance(x, int) and x > 1 for x in ex)


def panic_only(ctx, f, ins):
    """Is a call only made while the three keys of the panic sequence are held?"""
    m = ctx.mod
    want = {m.enum(k) if m.enum(k) is not None else m.macro(k) for k in ("KEYD_ENTER", "KEYD_BACKSPACE", "KEYD_ESC")}
    g = inline(m, f, lambda c, ch: c.file == f.file and len(list(c.insts())) < 60 and c.name != ins.callee.name)

    class Stores(Seq):
        """What global flags are stored under which key."""
        def setup(self):
            self.stores, self.hits = {}, []
            return self

        def on_store(self, s, i, addr, v):
            r = addr[1] if isinstance(addr, tuple) and addr[0] == "a" else addr
            if isinstance(r, tuple) and r[0] == "g":
                code = None
                for a in self.fn.args:
                    l, h, ex = self.rng(s, ("v", a))
                    if l == h:
                        code = l
                self.stores.setdefault(r[1], set()).add(code)

        def on_other(self, s, i, args, n):
            if i in sites:
                flags = {k[1][1] if isinstance(k[1], tuple) else None for k in ()}
                on = set()
                for x in s.auto:
                    if isinstance(x, tuple) and x[0] == "flag":
                        l, h, ex = self.rng(s, x[2])
                        if l > 0 or 0 in ex or h < 0:
                            on.add(x[1])
                self.hits.append(on)

        def after_inst(self, s, i):
            if i.op == "load":
                a = self.val(s, i.ops[0])
                r = a[1] if isinstance(a, tuple) and a[0] == "a" else a
                if isinstance(r, tuple) and r[0] == "g" and isinstance(s.env.get(i), (tuple, int)):
                    self.put(s, ("flag", r[1], s.env[i]))

    sites = {i for i in g.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == ins.callee.name}
    e = Stores(m, g, ModSets(m)).setup()
    e.run()
    if not e.hits:
        return False
    for on in e.hits:
        codes = set()
        for x in on:
            st = e.stores.get(x, set())
            others = [h for h in m.fns.values() if h is not f and any(i.op == "store" and x in grefs(i.ops[1]) for i in h.insts())]
            if len(st) == 1 and not others:
                codes |= st
        if not want <= codes:
            return False
    return True


KNOWN_ASSERTS = {("device", "fd"), ("layer_state", "active"), ("g", "nr_aux_fds"), ("call", "config_get_layer_index"), ("g", "device_table_sz"), ("keyboard", "layer_state")}


def asserted(ctx, f, ins):
    """What the condition of an assertion is about."""
    m, ms = ctx.mod, ModSets(ctx.mod)
    out = set()
    preds = [b for b in f.blocks if b.insts and b.insts[-1].targets and ins.block in b.insts[-1].targets]
    seen = set()

    def go(o, d=0):
        o = strip(o)
        if not isinstance(o, Inst) or o in seen or d > 8:
            if isinstance(o, Arg):
                out.add(("arg", None))
            return
        seen.add(o)
        if o.op == "load":
            root, flds = ms._addr(o.ops[0])[:2]
            fl = [x for x in flds if x]
            if fl:
                out.add(fl[-1])
                out.update(fl)
            elif isinstance(root, GRef):
                out.add(("g", root.name))
            elif isinstance(root, Inst):
                out.add(("local", None))
        elif o.op == "call":
            out.add(("call", m.fns[o.callee.name].src if isinstance(o.callee, GRef) and o.callee.name in m.fns else getattr(o.callee, "name", "?")))
        else:
            for x in list(o.ops) + ([v for v, b in o.incoming] if o.op == "phi" else []):
                go(x, d + 1)
    for b in preds:
        t = b.insts[-1]
        if t.ops:
            go(t.ops[0])
    return out


def layer_lookup(ctx, f, ins):
    """Is what an assertion looks at the result of a layer lookup stored before?"""
    m, ms = ctx.mod, ModSets(ctx.mod)
    for b in f.blocks:
        t = b.insts[-1]
        if t.targets and ins.block in t.targets and t.ops:
            work, seen = [strip(t.ops[0])], set()
            while work:
                o = work.pop()
                if not isinstance(o, Inst) or o in seen:
                    continue
                seen.add(o)
                if o.op == "load":
                    a = ms._addr(o.ops[0])[:2]
                    for i in b.insts:
                        if i.op == "store" and ms._addr(i.ops[1])[:2] == a:
                            work.append(strip(i.ops[0]))
                elif o.op == "call":
                    if isinstance(o.callee, GRef) and m.fns.get(o.callee.name) is not None and m.fns[o.callee.name].src == "config_get_layer_index":
                        return True
                else:
                    work += [strip(x) for x in o.ops]
    return False


def table_case(ctx, f, ins, about):
    """Is it the default of a switch over the field of a constant table all of whose values have a case? (Zeros end the lists of the table.)"""
    m = ctx.mod
    for b in f.blocks:
        t = b.insts[-1]
        if t.op == "switch" and ins.block in t.targets:
            for d, n in about:
                g = m.globals.get(d[:-2]) if isinstance(d, str) and d.endswith("[]") else None
                if g is None or not isinstance(g.init, Agg):
                    continue
                vals, work = set(), [(g.init, 0)]
                while work:
                    o, k = work.pop()
                    if isinstance(o, Agg):
                        work += [(x, k + 1) for x in o.elems]
                    elif isinstance(o, Const) and k > 2:       # the list within a row
                        vals.add(o.v)
                ctx.count("table_values", len(vals))
                return vals - {0} <= {c for c, x in t.cases if x is not ins.block}
    return False


def guards(f, b):
    """Number of different variables looked at on the way to a block from the last block with several ways in."""
    preds = {}
    for x in f.blocks:
        for t in x.insts[-1].targets or []:
            preds.setdefault(t, set()).add(x)
    seen, out = {b}, set()
    while True:
        p = preds.get(b, set()) - seen
        if len(p) != 1:
            return len(out)
        b = next(iter(p))
        seen.add(b)
        work = [strip(o) for o in b.insts[-1].ops]
        while work:
            o = work.pop()
            if isinstance(o, Inst) and o.op == "load":
                out.add(repr(o.ops[0]))
            elif isinstance(o, Inst):
                work += [strip(x) for x in o.ops]


def ends(ctx):
    m = ctx.mod
    fns, ev, body = running(ctx)
    ms = ModSets(m)
    allf = dict(fns)
    dead = {f.name for f in m.fns.values() if not any(b.insts and b.insts[-1].op == "ret" for b in f.blocks) and f.blocks}

    def isend(i):
        return i.op == "call" and isinstance(i.callee, GRef) and (i.callee.name in ENDS and i.callee.name not in m.fns or i.callee.name in dead)
    memo = {}

    def output(f):
        """Does a function (or all that call it while events are handled) belong to the output device?"""
        if f.file.startswith("src/vkbd/"):
            return True
        cs = [g for g in list(allf.values()) + [ev] for c in g.insts() if c.op == "call" and isinstance(c.callee, GRef) and c.callee.name == f.name]
        return bool(cs) and all(g.file.startswith("src/vkbd/") for g in cs)

    def excuse_fn(f, sites, depth=0):
        """[(site, excuse or None, state)] for call sites of a function."""
        out = []
        if f is ev:
            sites = [i for i in sites if i.block in body]
        if not sites:
            return out
        e = Ends(m, f, ms).setup(set(sites), output(f))
        e.run()
        ctx.count("states", e.npoints)
        for i in sites:
            for x, s in e.got.get(i, []):
                out.append((i, x, s))
        return out

    def excused(f, i, depth=0):
        """None if excused, else (site, path)."""
        key = (f.name, i)
        if key in memo:
            return memo[key]
        memo[key] = None
        if f is ev:
            # nothing excuses an end in the event loop itself but the panic sequence
            if guards(f, i.block) < 3:
                memo[key] = (i, None)
                return memo[key]
            try:
                p = panic_only(ctx, f, i)
            except IRError:
                ctx.undecide("the panic sequence", "the event loop has too many states")
                p = True
            memo[key] = None if p else (i, None)
            return memo[key]
        bad = [(i, s) for j, x, s in excuse_fn(f, [i]) if x is None]
        r = None
        if bad and panic_only(ctx, f, i):
            ctx.count("panic")
            bad = []
        if bad:
            # excused by all callers?
            cs = [(g, c) for g in allf.values() for c in g.insts() if c.op == "call" and isinstance(c.callee, GRef) and c.callee.name == f.name]
            cs += [(ev, c) for b in body for c in b.insts if c.op == "call" and isinstance(c.callee, GRef) and c.callee.name == f.name and ev.name not in allf]
            taken = any(f.name in grefs(o) for g in m.fns.values() for c in g.insts() for o in c.ops)
            if depth < 4 and cs and not taken and f is not ev and all(excused(g, c, depth + 1) is None for g, c in cs):
                bad = []
        if bad:
            r = bad[0]
        memo[key] = r
        return r
    n = 0
    for f in list(fns.values()) + [ev]:
        if f.name in dead and f is not ev:
            continue                # a function that ends the process: judged where it is called
        for i in f.insts():
            if not isend(i) or f is ev and i.block not in body:
                continue
            n += 1
            ctx.count("ends")
            if i.callee.name == "__assert_fail":
                about = asserted(ctx, f, i)
                ctx.count("assertions")
                ctx.sample(f"assertion in {f.src}: about {sorted(map(str, about))}")
                if about & KNOWN_ASSERTS or layer_lookup(ctx, f, ins=i) or table_case(ctx, f, i, about):
                    continue
                e = Ends(m, f, ms).setup({i}, False)
                e.run()
                if not e.got.get(i):
                    continue
                ctx.violation(f"assert:{f.src}", f"an assertion about {', '.join(str(x[1] or x[0]) for x in sorted(about, key=str)) or 'its input'} may end the daemon", where=m.loc(i), path=trace_str(e.got[i][0][1].trace))
                continue
            r = excused(f, i)
            if r is not None:
                ctx.violation(f"end:{f.src}:{i.callee.name}", f"{i.callee.name}() may end the daemon while it handles an event", where=m.loc(i), path=trace_str(r[1].trace) if r[1] else "")
    ctx.count("functions", len(fns))
    ctx.need(n, "nothing ever ends the daemon, not even the panic sequence")


# ---------------------------------------------------------------- divisions

DIVS = ("sdiv", "udiv", "srem", "urem")


class Div(Seq):
    def setup(self):
        self.seen = set()
        return self

    def on_inst(self, s, ins):
        if ins.op in DIVS and not isinstance(strip(ins.ops[1]), Const):
            d = self.val(s, ins.ops[1])
            self.seen.add(ins)
            l, h, ex = self.rng(s, d)
            if l <= 0 <= h and 0 not in ex and not self.differ(s, strip(ins.ops[1])):
                self.report(s, ins, "div", "a division whose divisor may be 0 ends the daemon")
        return super().on_inst(s, ins)


    def differ(self, s, o):
        """Is it the difference of two values known to be unequal?"""
        if not isinstance(o, Inst) or o.op != "sub":
            return False
        a, b = self.val(s, o.ops[0]), self.val(s, o.ops[1])
        return self.truth(s, self.mkcmp(s, "eq", a, b)) is False


def divisions(ctx):
    m = ctx.mod
    fns, ev, body = running(ctx)
    for f in list(fns.values()) + [ev]:
        ds = [i for i in f.insts() if i.op in DIVS]
        ctx.count("divisions", len(ds))
        if any(not isinstance(strip(i.ops[1]), Const) for i in ds):
            e = Div(m, f, ModSets(m)).setup()
            e.run()
            ctx.count("variable_divisors", len(e.seen))
            seen = set()
            for key, msg, ins, tr in e.bad:
                if ins not in seen:
                    seen.add(ins)
                    ctx.violation(f"{key}:{f.src}", msg, where=m.loc(ins), path=tr)


# ---------------------------------------------------------------- reads in loops

class Reads(Seq):
    """tags ('empty', call, value) - the last read failed or gave nothing"""

    def setup(self, scc, ends):
        self.loop, self.ends, self.syms = scc, ends, {}
        return self

    def on_other(self, s, ins, args, n):
        if n in OPENS:
            self.drop(s, lambda x: x[0] == "empty")         # another file
        if n in READS | WRITES and ins.block in self.loop:
            for x in self.get(s, "empty"):
                if x[1] is ins or x[3] == str(args[0]):
                    self.report(s, ins, f"spin:{n}", f"{n}() is repeated although it {'failed' if x[2] < 0 or n in WRITES else 'reached the end'}")
            self.drop(s, lambda x: x[0] == "empty")
            out = []
            vals = {"fgets": (0,), "getline": (-1,), "getc": (-1,), "fgetc": (-1,), "fread": (0,)}.get(n, (-1, 0))
            for v in (vals if self.ends and n in READS else vals[:1]) + (None,):
                t = s.copy()
                if v is not None:
                    self.put(t, ("force", ins, v), ("empty", ins, v, str(args[0])))
                else:
                    w = ins.ty.a if ins.ty.k == "int" else 64
                    self.put(t, ("force", ins, ("v", self.syms.setdefault(ins, Sym("got", w, (1, (1 << (w - 1)) - 1, frozenset()))))))
                out.append(t)
            return out
        if n == "__errno_location":
            self.put(s, ("errno", ("v", ins)))

    def on_branch(self, s, t, c, want):
        # interrupted calls may be repeated
        x = c[1] if isinstance(c, tuple) and c[0] == "not" else c
        w = (not want) if isinstance(c, tuple) and c[0] == "not" else want
        if isinstance(x, tuple) and x[0] == "cmp" and 4 in (x[2], x[3]) and (x[1] == "eq") == bool(w) and x[1] in ("eq", "ne"):
            o = x[2] if x[3] == 4 else x[3]
            if isinstance(o, tuple) and o[0] == "v" and isinstance(o[1], Inst) and o[1].op == "load" and \
                    isinstance(strip(o[1].ops[0]), Inst) and strip(o[1].ops[0]).op == "call" and getattr(strip(o[1].ops[0]).callee, "name", "") == "__errno_location":
                self.drop(s, lambda y: y[0] == "empty" and y[2] < 0)

    after_inst = Ends.after_inst


def sccs(f, within=None):
    """Strongly connected components with an edge inside."""
    idx, low, st, on, out, k = {}, {}, [], set(), [], [0]

    def succ(b):
        return [t for t in b.insts[-1].targets or [] if within is None or t in within]
    for root in f.blocks:
        if root in idx or within is not None and root not in within:
            continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = k[0]
        k[0] += 1
        st.append(root)
        on.add(root)
        while work:
            b, it = work[-1]
            for x in it:
                if x not in idx:
                    idx[x] = low[x] = k[0]
                    k[0] += 1
                    st.append(x)
                    on.add(x)
                    work.append((x, iter(succ(x))))
                    break
                elif x in on:
                    low[b] = min(low[b], idx[x])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[b])
                if low[b] == idx[b]:
                    c = set()
                    while True:
                        x = st.pop()
                        on.discard(x)
                        c.add(x)
                        if x is b:
                            break
                    if len(c) > 1 or b in succ(b):
                        out.append(c)
    return out


def stepped(p, v):
    """Is v the variable one step on: a constant added, or the next of a list?"""
    if not isinstance(v, Inst):
        return False
    if v.op in ("add", "sub", "getelementptr") and any(strip(o) is p for o in v.ops):
        return all(isinstance(strip(o), Const) and strip(o).v for o in v.ops if strip(o) is not p)
    return v.op == "load" and isinstance(strip(v.ops[0]), Inst) and strip(v.ops[0]).op == "getelementptr" and strip(strip(v.ops[0]).ops[0]) is p


def counted(f, c, reads=False, step=False):
    """Does leaving a loop depend on something the loop itself carries from round to round?"""
    heads = {t for b in f.blocks if b not in c for t in b.insts[-1].targets or [] if t in c}
    work = [strip(o) for b in c if any(t not in c for t in b.insts[-1].targets or []) for o in b.insts[-1].ops]
    seen = set()
    while work:
        o = work.pop()
        if not isinstance(o, Inst) or o in seen or o.block not in c:
            continue
        seen.add(o)
        if o.op == "phi" and o.block in heads and (not step or all(stepped(o, strip(v)) for v, b in o.incoming if b in c)):
            return True
        work += [strip(x) for x in o.ops] + ([strip(v) for v, b in o.incoming] if o.op == "phi" else [])
        if reads and o.op == "call" and isinstance(o.callee, GRef) and o.callee.name in READS | {"readdir", "strtok", "strsep", "strtok_r"}:
            return True
    return False


def uncounted(f, c, out):
    """Adds the blocks whose innermost loop within c goes on for as long as a call says so."""
    heads = {t for b in f.blocks if b not in c for t in b.insts[-1].targets or [] if t in c}
    inner = sccs(f, c - heads) if heads else []
    nested = set()
    for x in inner:
        nested |= x
        uncounted(f, x, out)
    if not counted(f, c, step=True):
        out |= c - nested


def loops(ctx):
    m = ctx.mod
    fns, ev, body = running(ctx)
    ms = ModSets(m)
    for f in fns.values():
        # direct loops, and loops around a helper that reads
        readers = {h.name for h in m.fns.values() if h is not f and h.file == f.file and (READS | WRITES) & libcalls(m, h) and len(list(h.insts())) < 400}
        g = f
        for c in sccs(f):
            ctx.count("loops")
            leaves = [b for b in c if any(t not in c for t in b.insts[-1].targets or []) or b.insts[-1].op == "ret" or
                      any(i.op == "call" and isinstance(i.callee, GRef) and (i.callee.name in ENDS or i.callee.name in m.fns and not any(x.insts[-1].op == "ret" for x in m.fns[i.callee.name].blocks)) for i in b.insts)]
            if not leaves:
                ctx.violation(f"endless:{f.src}", "a loop without an exit", where=m.loc(next(iter(c)).insts[-1]))
            polled = [i for b in c for i in b.insts if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in POLLS]
            if polled and leaves and not counted(f, c, True):
                ctx.violation(f"poll:{polled[0].callee.name}", "a loop asks again and again until the answer changes", where=m.loc(polled[0]))
        names = {i.callee.name for i in f.insts() if i.op == "call" and isinstance(i.callee, GRef)}
        if not names & (READS | WRITES | readers):
            continue
        if names & readers and f is not ev:
            g = inline(m, f, lambda c, ch: c.name in readers)
        scc = set()
        for c in sccs(g):
            uncounted(g, c, scc)
        if not any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in READS | WRITES for b in scc for i in b.insts):
            continue
        ctx.count("read_loops")
        e = Reads(m, g, ms).setup(scc, f.file != "src/device.c")     # evdev and inotify report no end
        e.run()
        ctx.count("states", e.npoints)
        seen = set()
        for key, msg, ins, tr in e.bad:
            if key not in seen:
                seen.add(key)
                ctx.violation(f"{key}:{f.src}", msg, where=m.loc(ins), path=tr)


# ---------------------------------------------------------------- loops that go round without a change
SAME = {"strcmp", "strncmp", "strcasecmp", "strncasecmp", "strlen", "strnlen", "strchr", "strrchr", "strstr", "strspn", "strcspn", "memcmp", "isspace", "isdigit", "isalnum", "isalpha", "isprint",
        "isupper", "islower", "tolower", "toupper", "atoi", "strtol", "strtoul", "abs", "__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc"}


class Spin:
    def __init__(self, m, ms):
        self.m, self.ms, self.det = m, ms, {}

    def deterministic(self, f):
        """Does a function only compute from what it is given and from what never changes (it may fill what its arguments point to)?"""
        if f in self.det:
            return self.det[f]
        self.det[f] = False
        fl, gl, raw = self.ms.of(f)
        ok = not fl and not gl
        for i in f.insts():
            if not ok:
                break
            if i.op == "load":
                r = strip(self.ms._addr(i.ops[0])[0])
                ok = not isinstance(r, GRef) or r.name in self.m.globals and (self.m.globals[r.name].const or not self.written(r.name))
            elif i.op == "call":
                n = i.callee.name if isinstance(i.callee, GRef) else None
                ok = n is not None and (n in SAME or n.startswith(("llvm.mem", "llvm.dbg", "llvm.lifetime")) or n in self.m.fns and self.deterministic(self.m.fns[n]))
        self.det[f] = ok
        return ok

    def written(self, g):
        if not hasattr(self, "wr"):
            self.wr = set()
            for f in self.m.fns.values():
                self.wr |= {x if isinstance(x, str) else getattr(x, "name", str(x)) for x in self.ms.of(f)[1]}
                for i in f.insts():
                    if i.op == "store" and isinstance(r := strip(self.ms._addr(i.ops[1])[0]), GRef):
                        self.wr.add(r.name)
        return g in self.wr

    def writes(self, b):
        """(fields, globals, locals, raw) a block may change, locals filled from nothing but what the loop keeps excepted."""
        fl, gl, al, raw, fills = set(), set(), set(), False, []
        for i in b.insts:
            if i.op == "store":
                r, fs = self.ms._addr(i.ops[1])
                r = strip(r)
                fs = [x for x in fs if x]
                if isinstance(r, Inst) and r.op == "alloca":
                    al.add(r)
                elif fs:
                    fl.add(fs[-1])
                elif isinstance(r, GRef):
                    gl.add(r.name)
                else:
                    raw = True
            elif i.op == "call":
                n = i.callee.name if isinstance(i.callee, GRef) else None
                if n and n.startswith(("llvm.dbg", "llvm.lifetime")) or n in SAME:
                    continue
                mine = [r for o in i.ops if isinstance(o, Inst) and isinstance(r := strip(self.ms._addr(o)[0]), Inst) and r.op == "alloca"]
                if n in self.m.fns:
                    g = self.m.fns[n]
                    if self.deterministic(g):
                        fills += [(r, i) for r in mine]
                        raw |= self.ms.of(g)[2] and len(mine) < sum(o.ty.k == "ptr" for o in i.ops if isinstance(o, (Inst, Arg))) and any(isinstance(o, (Inst, Arg)) and o.ty.k == "ptr" and not (isinstance(o, Inst) and strip(self.ms._addr(o)[0]) in mine) and self.fills(g, k) for k, o in enumerate(i.ops))
                        continue
                    a, c, d = self.ms.of(g)
                    fl |= set(a)
                    gl |= {getattr(x, "name", x) for x in c}
                    raw |= d
                    al |= set(mine)
                elif n in ("printf", "fprintf", "vprintf", "vfprintf", "fputs", "puts", "putchar", "fflush", "usleep", "close", "free", "write", "dprintf", "perror", "fputc", "syslog"):
                    pass
                elif n in ("snprintf", "vsnprintf", "strcpy", "strncpy", "memcpy", "sprintf"):
                    r, fs = self.ms._addr(i.ops[0])
                    r = strip(r)
                    if isinstance(r, Inst) and r.op == "alloca":
                        al.add(r)
                    elif isinstance(r, GRef):
                        gl.add(r.name)
                    elif [x for x in fs if x]:
                        fl.add([x for x in fs if x][-1])
                    else:
                        raw = True
                elif n and n.startswith("llvm.mem"):
                    al |= {r for o in i.ops[:1] if isinstance(r := strip(self.ms._addr(o)[0]), Inst) and r.op == "alloca"}
                    r, fs = self.ms._addr(i.ops[0])
                    fs = [x for x in fs if x]
                    if fs:
                        fl.add(fs[-1])
                    elif isinstance(strip(r), GRef):
                        gl.add(strip(r).name)
                    elif not (isinstance(strip(r), Inst) and strip(r).op == "alloca"):
                        raw = True
                else:
                    al |= set(mine)
                    raw = True
                    fl.add("*")
        return fl, gl, al, raw, fills

    def fills(self, g, k):
        """Does a function store through an argument?"""
        return any(i.op == "store" and isinstance(r := strip(self.ms._addr(i.ops[1])[0]), Arg) and r.idx == k for i in g.insts())

    def check(self, f):
        """Yields (block, conditions) of ways round a loop on which nothing changes that its conditions look at."""
        c = CFG(f)
        heads = [h for h in f.blocks if h in c.n and any(p in c.n and c.dom(h, p) for p in c.preds[h])]
        body = {}
        for h in heads:
            st, bs = [p for p in c.preds[h] if p in c.n and c.dom(h, p)], {h}
            while st:
                x = st.pop()
                if x not in bs:
                    bs.add(x)
                    st += [p for p in c.preds[x] if p in c.n]
            body[h] = bs
        for h in heads:
            self.steps = 0
            st = [(h, (h,), {}, {}, frozenset([h]))]
            while st and self.steps < 3000:
                self.steps += 1
                b, path, env, known, touched = st.pop()
                t = b.insts[-1]
                for y in dict.fromkeys(b.succs):
                    if y not in body[h]:
                        continue
                    k2 = known
                    if t.op == "br" and t.ops and len(set(t.targets)) == 2:
                        want = t.targets[0] is y
                        v = self.value(t.ops[0], env)
                        if v is None:
                            v = known.get(t.ops[0])
                        if v is not None and bool(v) != want:
                            continue
                        k2 = {**known, t.ops[0]: want}
                    if y is h:
                        if self.still(f, h, b, path, env, touched, body[h]):
                            yield h, path
                        continue
                    if y in path:
                        continue
                    e = dict(env)
                    if y in body and y is not h:
                        for i in y.insts:
                            if i.op == "phi":
                                e[i] = None
                        st.append((y, path + (y,), e, k2, touched | frozenset(body[y])))
                    else:
                        for i in y.insts:
                            if i.op == "phi":
                                e[i] = self.res(next(v for v, q in i.incoming if q is b), env)
                        st.append((y, path + (y,), e, k2, touched | {y}))

    def res(self, v, env):
        return env[v] if isinstance(v, Inst) and v in env else v

    def value(self, v, env, d=0):
        v = self.res(v, env)
        if isinstance(v, Const):
            return v.v
        if not isinstance(v, Inst) or d > 6:
            return None
        if v.op in ("zext", "sext", "trunc", "freeze"):
            return self.value(v.ops[0], env, d + 1)
        if v.op == "icmp" and v.ops[0].ty.k == "int":
            a, z = self.value(v.ops[0], env, d + 1), self.value(v.ops[1], env, d + 1)
            if a is not None and z is not None:
                return {"eq": a == z, "ne": a != z, "slt": a < z, "sgt": a > z, "sle": a <= z, "sge": a >= z, "ult": a < z, "ugt": a > z, "ule": a <= z, "uge": a >= z}[v.pred]
        if v.op == "xor":
            a, z = self.value(v.ops[0], env, d + 1), self.value(v.ops[1], env, d + 1)
            if a is not None and z is not None:
                return int(a) ^ int(z)
        return None

    def still(self, f, h, last, path, env, touched, body):
        for i in h.insts:
            if i.op == "phi":
                if self.res(next(v for v, q in i.incoming if q is last), env) is not i:
                    return False
        fl, gl, al, raw, fills = set(), set(), set(), False, []
        for b in touched:
            x = self.writes(b)
            fl |= x[0]
            gl |= x[1]
            al |= x[2]
            raw |= x[3]
            fills += x[4]
        conds = [b.insts[-1].ops[0] for b in path if len(set(b.succs)) > 1]
        if not conds:
            return False
        seen, st = set(), list(conds)
        while st:
            v = self.res(st.pop(), env)
            if v is None:
                return False
            if not isinstance(v, Inst) or v in seen or v.block not in body:
                continue
            seen.add(v)
            if v.op == "phi":
                if v.block is not h:
                    return False
            elif v.op == "load":
                r, fs = self.ms._addr(v.ops[0])
                r = strip(r)
                fs = [x for x in fs if x]
                if isinstance(r, Inst) and r.op == "alloca":
                    if r in al:
                        return False
                    st += [o for q, i in fills if q is r for o in i.ops if not (isinstance(o, Inst) and strip(self.ms._addr(o)[0]) is r)]
                elif fs:
                    if fs[-1] in fl or "*" in fl:
                        return False
                elif isinstance(r, GRef):
                    if r.name in gl or "*" in fl and not (r.name in self.m.globals and self.m.globals[r.name].const):
                        return False
                elif raw or "*" in fl:
                    return False
                st.append(v.ops[0])
            elif v.op == "call":
                n = v.callee.name if isinstance(v.callee, GRef) else None
                if n is None or not (n in SAME or n in self.m.fns and self.deterministic(self.m.fns[n])):
                    return False
                for o in v.ops:
                    r = strip(self.ms._addr(o)[0]) if isinstance(o, Inst) and o.ty.k == "ptr" else None
                    if isinstance(r, Inst) and r.op == "alloca":
                        if r in al:
                            return False
                    elif isinstance(o, (Inst, Arg)) and o.ty.k == "ptr" and (raw or "*" in fl):
                        return False
                    st.append(o)
            elif v.op != "alloca":
                st += list(v.ops)
        return True


def spins(ctx):
    m = ctx.mod
    fns, ev, body = running(ctx)
    s = Spin(m, ModSets(m))
    for f in fns.values():
        ctx.count("functions searched for rounds without a change")
        for h, path in s.check(f):
            at = [b for b in path if b.insts[-1].op == "br"]
            where = next((m.loc(i) for i in path[-1].insts if m.loc(i)), m.loc(h.insts[-1]))
            ctx.violation(f"spin:{f.src}", "a way round the loop changes nothing of what the loop looks at: it is never left", where=where, path=[m.loc(b.insts[-1]) for b in path])
            break


# ---------------------------------------------------------------- clients

class Client(Seq):
    """tags ('con', v) ('rcv', v) ('snd', v) ('nb', v)"""

    def setup(self):
        self.ncon = 0
        return self

    def call_accept(self, s, ins, args):
        self.put(s, ("later", ins))

    def call_accept4(self, s, ins, args):
        self.put(s, ("later", ins))
        fl = self.const(s, args[3])
        if fl is not None and fl & 0x800:
            self.put(s, ("laternb", ins))

    def after_inst(self, s, ins):
        for x in list(self.get(s, "later")) + list(self.get(s, "laternb")):
            if x[1] is ins:
                self.put(s, ("con", s.env.get(ins, ("v", ins))))
                if x[0] == "laternb":
                    self.put(s, ("nb", s.env.get(ins, ("v", ins))))
                self.ncon += 1
                self.drop(s, lambda y: y == x)

    def con(self, s, v):
        return any(x[1] == v for x in self.get(s, "con"))

    def call_setsockopt(self, s, ins, args):
        if not self.con(s, args[0]):
            return
        opt = self.const(s, args[2])
        if opt in (20, 21, 66, 67):
            tag = ("rcv" if opt in (20, 66) else "snd", args[0])
            if self.zerotv(s, args[3]):
                self.drop(s, lambda x: x == tag)        # no limit at all
            else:
                self.put(s, tag)

    def zerotv(self, s, a):
        """Is a time known to be zero (no limit)?"""
        if not isinstance(a, tuple):
            return True
        r = a[1] if a[0] == "a" else a
        vals = [v for k, v in s.mem.items() if isinstance(k, tuple) and isinstance(k[0], tuple) and (k[0][1] if k[0][0] == "a" else k[0]) == r]
        return bool(vals) and all(v == 0 or v == ("zero",) for v in vals)

    def call_fcntl(self, s, ins, args):
        if self.con(s, args[0]) and self.const(s, args[1]) == 4:
            fl = self.const(s, args[2]) if len(args) > 2 else None
            if fl is None or fl & 0x800:
                self.put(s, ("nb", args[0]))

    def limited(self, s, v, what, flags=None):
        return any(x[1] == v for x in self.get(s, what)) or any(x[1] == v for x in self.get(s, "nb")) or flags is not None and bool(flags & 0x40)

    def reading(self, s, ins, args, n):
        if self.con(s, args[0]):
            fl = self.const(s, args[3]) if n.startswith("recv") and n != "recvmsg" and len(args) > 3 else None
            if not self.limited(s, args[0], "rcv", fl):
                self.report(s, ins, "blocked", "the daemon waits without a limit for what a client sends")

    def writing(self, s, ins, args, n):
        if self.con(s, args[0]):
            fl = self.const(s, args[3]) if n.startswith("send") and n != "sendmsg" and len(args) > 3 else None
            if not self.limited(s, args[0], "snd", fl):
                self.report(s, ins, "blocked-answer", "the daemon waits without a limit for a client to take its answer")

    def on_store(self, s, ins, addr, v):
        if self.con(s, v) and isinstance(addr, tuple):
            r = addr[1] if addr[0] == "a" else addr
            if isinstance(r, tuple) and r[0] == "g" and not self.limited(s, v, "snd"):
                self.report(s, ins, "blocked-later", "a client is kept whose messages may block the daemon")

    def on_other(self, s, ins, args, n):
        if n in ("read", "recv", "recvfrom", "recvmsg", "readv"):
            return self.reading(s, ins, args, n)
        if n in ("write", "send", "sendto", "sendmsg", "writev"):
            return self.writing(s, ins, args, n)


def clients(ctx):
    m = ctx.mod
    fns, ev, body = running(ctx)
    ms = ModSets(m)
    n = 0
    for f in fns.values():
        if not any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("accept", "accept4") for i in f.insts()):
            continue
        tops = [f]
        if f not in handlers(ctx):
            tops = [h for h in fns.values() if any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == f.name for i in h.insts())] or [f]
        talk = {"read", "recv", "recvfrom", "recvmsg", "write", "send", "sendto", "setsockopt", "fcntl", "accept", "accept4"}
        for t in tops:
            g = inline(m, t, lambda c, ch: (c.file == f.file or c.file in ("src/util.c", "src/ipc.c")) and talk & libcalls(m, c) or c.file == f.file and c.src in ("add_listener",))
            e = Client(m, g, ms).setup()
            e.run()
            ctx.count("states", e.npoints)
            if e.ncon:
                n += 1
                ctx.count("client_functions")
            seen = set()
            for key, msg, ins, tr in e.bad:
                if key not in seen:
                    seen.add(key)
                    ctx.violation(key, msg, where=m.loc(ins), path=tr)
    ctx.need(n, "where clients are accepted was not found")


# ---------------------------------------------------------------- waiting and signals

class Children(Seq):
    def setup(self):
        self.execs, self.waits = [], []
        return self

    def on_other(self, s, ins, args, n):
        if n in ("fork", "vfork"):
            out = []
            for v in (-1, 0, ("v", Sym("pid", 32, (1, 1 << 30, frozenset())))):
                t = s.copy()
                self.put(t, ("force", ins, v))
                k = len(self.get(t, "forked"))
                self.put(t, ("forked", k, "child" if v == 0 else "parent" if v != -1 else "failed"))
                out.append(t)
            return out
        roles = [x[2] for x in sorted(self.get(s, "forked"), key=lambda x: x[1])]
        if n.startswith("exec"):
            self.execs.append((ins, roles, s))
        if n in ("waitpid", "wait", "wait3", "wait4"):
            fl = self.const(s, args[2]) if n == "waitpid" else self.const(s, args[1]) if n in ("wait3", "wait4") else 0
            if "child" not in roles and not (fl is not None and fl & 1):
                self.waits.append((ins, roles, s))

    after_inst = Ends.after_inst


def waiting(ctx):
    m = ctx.mod
    fns, ev, body = running(ctx)
    ms = ModSets(m)
    for f in fns.values():
        names = {i.callee.name for i in f.insts() if i.op == "call" and isinstance(i.callee, GRef)}
        for n in sorted(names & (WAITS - {"waitpid", "wait", "wait3", "wait4"})):
            i = next(i for i in f.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == n)
            ctx.violation(f"wait:{n}:{f.src}", f"{n}() makes the daemon wait for something else than events", where=m.loc(i))
        if names & {"fork", "vfork"}:
            g = inline(m, f, lambda c, ch: c.file == f.file and len(list(c.insts())) < 200)
            e = Children(m, g, ms).setup()
            e.run()
            ctx.count("forks")
            for i, roles, s in e.execs:
                if "child" not in roles:
                    ctx.violation(f"exec:{f.src}", "the daemon itself is replaced by a command", where=m.loc(i), path=trace_str(s.trace))
                elif e.waits and roles.count("child") < 2:
                    ctx.violation(f"wait-command:{f.src}", "the daemon waits for a command to end", where=m.loc(e.waits[0][0]), path=trace_str(s.trace))
    # descriptors of devices do not block
    for f in fns.values():
        if f.file != "src/device.c":
            continue
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("open", "open64") and isinstance(strip(i.ops[1]), Const):
                ctx.count("device_opens")
                if not strip(i.ops[1]).v & 0x800:
                    ctx.violation("blocking-device", "a device is opened so that reading its events may block", where=m.loc(i))
    for f in m.fns.values():
        if f.file == "src/device.c":
            for i in f.insts():
                if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("inotify_init1", "inotify_init"):
                    ctx.count("monitor_opens")
                    if i.callee.name == "inotify_init" or isinstance(strip(i.ops[0]), Const) and not strip(i.ops[0]).v & 0x800:
                        ctx.violation("blocking-monitor", "reading the arrival of devices may block", where=m.loc(i))


class Pipe(Seq):
    def setup(self, tops):
        self.tops, self.seen = tops, 0
        return self

    def call_signal(self, s, ins, args):
        if self.const(s, args[0]) == 13:
            if args[1] == 1 or self.const(s, args[1]) == 1:
                self.put(s, ("ign",))
            else:
                self.drop(s, lambda x: x == ("ign",))

    def on_other(self, s, ins, args, n):
        if n in self.tops:
            self.seen += 1
            if not self.get(s, "ign"):
                self.report(s, ins, "sigpipe", "the daemon is started while a client that went away can end it with SIGPIPE")

    def on_indirect(self, s, ins, args):
        pass


def pipes(ctx):
    """A client that went away raises no signal."""
    m = ctx.mod
    fns, ev, body = running(ctx)
    bad = []
    for f in fns.values():
        if f.file != DAEMON:
            continue
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and (i.callee.name in ("write", "writev", "dprintf") or
                    i.callee.name == "send" and isinstance(strip(i.ops[3]), Const) and not strip(i.ops[3]).v & 0x4000):
                bad.append(i)
    if not bad:
        return
    ctx.count("plain_writes", len(bad))
    main = ctx.need(m.fns.get("main"), "main not found")
    tops = {f.name for f, i in callers(m, "evloop") if f.file == DAEMON}
    indirect = any(n in tops for f in m.fns.values() for i in f.insts() for o in i.ops for n in grefs(o)) or any(n in tops for g in m.globals.values() if g.init is not None for n in grefs(g.init))
    # within the daemon
    for f, i in callers(m, "evloop"):
        if f.file == DAEMON:
            e = Pipe(m, inline(m, f, lambda c, ch: c.file == DAEMON and "signal" in libcalls(m, c)), ModSets(m)).setup({"evloop"})
            e.run()
            if e.seen and not e.bad:
                return
    e = Pipe(m, inline(m, main, lambda c, ch: c.file == main.file and c.name not in tops and ("signal" in libcalls(m, c) or tops & {h for h in closure(m, c)})), ModSets(m)).setup(tops)
    e.on_indirect = lambda s, ins, args: e.on_other(s, ins, args, next(iter(tops))) if indirect else None
    e.run()
    if not e.seen:
        ctx.undecide("SIGPIPE", "how the daemon is started was not found")
        return
    for key, msg, ins, tr in e.bad[:1]:
        ctx.violation(key, msg, where=m.loc(ins), path=tr)


def run(ctx):
    ctx.rule("nothing but the listed causes ends the daemon", ends)
    ctx.rule("no division by zero", divisions)
    ctx.rule("no loop repeats a read that failed", loops)
    ctx.rule("every way round a loop changes something the loop looks at", spins)
    ctx.rule("a client cannot block the daemon", clients)
    ctx.rule("the daemon waits for nothing but events", waiting)
    ctx.rule("a client that went away raises no signal", pipes)
