"""C18: command(). The function that starts programs (with its helpers inlined) is simulated with a process-level automaton: each
fork() splits into failure, child and parent. exec may only be reached in a grandchild of the daemon whose descriptors 0-2
were replaced; a path in any started process must end in exec or _exit, never return; the daemon must reap the intermediate child, which
must not block. Every descriptor-creating call reachable in the daemon must set close-on-exec, or its descriptor must be
closed or marked before the enclosing function returns."""
from seq import *
from cfg import CFG, strip

CLO = 0o2000000
EXECS = {"execl", "execv", "execvp", "execlp", "execve", "execle", "execvpe"}
BLOCK = {"wait", "waitpid", "sleep", "usleep", "pause", "read", "poll", "select"}
ASSUMPTIONS = ["fork, waitpid, dup2 and exec behave as documented; opendir sets close-on-exec"]
MAKERS = {"open": 1, "openat": 2, "socket": 1, "inotify_init1": 0, "accept4": 3, "dup3": 2, "eventfd": 1, "timerfd_create": 1,
          "epoll_create1": 0, "accept": None, "dup": None, "inotify_init": None, "epoll_create": None, "signalfd": 2, "memfd_create": 1}


def reach(m, roots, stop=()):
    """Functions reachable through calls and function references."""
    seen, work = {}, [f for f in roots if f is not None]
    while work:
        f = work.pop()
        if f.name in seen or f.src in stop:
            continue
        seen[f.name] = f
        for i in f.insts():
            for o in list(i.ops) + ([i.callee] if i.op == "call" else []) + [v for v, _ in i.incoming or ()]:
                if isinstance(o, GRef) and o.name in m.fns:
                    work.append(m.fns[o.name])
    return seen


class Proc(Seq):
    """auto: ("lvl",n) process level; ("dup",k) replaced descriptors; ("kid",tok,n) unreaped child of level n"""

    def initial(self):
        return frozenset({("lvl", 0)})

    def lvl(self, s):
        return self.get(s, "lvl")[0][1]

    def call_fork(self, s, ins, args):
        out = []
        for k in (-1, 0, 1):
            n = s.copy()
            n.auto = n.auto | {("fr", k)}
            out.append(n)
        return out

    call_vfork = call_fork

    def after_inst(self, s, ins):
        fr = self.get(s, "fr")
        if fr:
            k = fr[0][1]
            l = self.lvl(s)
            s.auto = s.auto - {fr[0]}
            t = ("v", ins)
            s.env[ins] = t
            s.facts[t] = {-1: (-1, -1, frozenset()), 0: (0, 0, frozenset()), 1: (1, INF, frozenset())}[k]
            if k == 0:
                s.auto = frozenset(x for x in s.auto if x[0] not in ("lvl", "kid")) | {("lvl", l + 1)}
            elif k == 1:
                s.auto = s.auto | {("kid", t, l)}

    def covered(self, s, ins, k):
        c = self.const(s, self.val(s, ins.ops[k]))
        if c is not None:
            return [c]
        cfg = self._cfg = getattr(self, "_cfg", None) or CFG(self.fn)
        p = strip(ins.ops[k])
        for h in cfg.loops_of(ins.block):
            for q, init, step in cfg.counted(h):
                if q is p and isinstance(init, Const) and step in (1, -1):
                    for b, pred, x, off in cfg.bound(h, p):
                        if isinstance(x, Const):
                            r = []
                            v = init.v
                            sg = lambda v: v - (1 << x.ty.a) if v >= 1 << (x.ty.a - 1) else v
                            while len(r) < 64 and {"slt": v < sg(x.v), "ult": v < x.v, "sle": v <= sg(x.v), "ule": v <= x.v, "ne": v != x.v, "sgt": v > sg(x.v),
                                                   "sge": v >= sg(x.v)}.get(pred, False):
                                r.append(v)
                                v += step
                            return r
        return []

    def call_dup2(self, s, ins, args):
        if self.lvl(s) and args[0] in [t[1] for t in self.get(s, "null")] and self.nonneg(s, args[0]):
            self.put(s, *(("dup", k) for k in self.covered(s, ins, 1)))

    call_dup3 = call_dup2

    def call_close(self, s, ins, args):
        for k in self.covered(s, ins, 0):
            if k in (0, 1, 2) and self.lvl(s):
                self.put(s, ("dup", k))

    def call_open(self, s, ins, args):
        self.put(s, ("null", ("v", ins)))

    def do_exec(self, s, ins, args):
        l = self.lvl(s)
        if l == 0:
            self.report(s, ins, "exec-daemon", "the daemon itself is replaced by the program")
        elif l == 1:
            self.report(s, ins, "exec-child", "the program runs as a direct child of the daemon, which waits for it or leaves a zombie")
        for k in (0, 1, 2):
            if ("dup", k) not in s.auto:
                self.report(s, ins, f"stdio{k}", f"the program inherits the daemon's descriptor {k}")

    def reap(self, s, ins, args):
        l = self.lvl(s)
        if l:
            return self.report(s, ins, "block", "the intermediate process waits for the program, and the daemon waits for it")
        opt = args[2] if len(args) > 2 else 0
        n = self.callname(ins)
        if n == "wait":
            self.drop(s, lambda x: x[0] == "kid")
        elif opt == 0:
            self.drop(s, lambda x: x[0] == "kid" and (x[1] == args[0] or args[0] in (-1, 0xffffffff)))

    call_wait = call_waitpid = call_wait4 = reap

    def on_other(self, s, ins, args, name):
        if name in EXECS:
            self.do_exec(s, ins, args)
        elif self.lvl(s) == 1 and name in ("sleep", "pause", "read", "poll", "select"):
            self.report(s, ins, "block", f"the process the daemon waits for may block in {name}")

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op == "ret":
            if self.lvl(s):
                self.report(s, t, "second-daemon", "a process started to run the program returns into the daemon's code")
            elif self.get(s, "kid"):
                self.report(s, t, "zombie", "the intermediate process is not collected, leaving a zombie")


for _e in EXECS:
    setattr(Proc, "call_" + _e, Proc.do_exec)


class Fds(Seq):
    def __init__(self, mod, fn, ms, execs):
        self.execs = execs
        Seq.__init__(self, mod, fn, ms)

    def on_inst(self, s, ins):
        n = self.callname(ins)
        if n in MAKERS:
            k = MAKERS[n]
            args = [self.val(s, o) for o in ins.ops]
            fl = self.const(s, args[k]) if k is not None and k < len(args) else 0
            self.events += 1
            if not isinstance(fl, int) or not fl & CLO:
                self.put(s, ("fd", ("v", ins), n, str(ins.fnsrc)))
        elif n == "fcntl" and ins.ops[1].v == 2 if n == "fcntl" and isinstance(ins.ops[1], Const) else False:
            a = self.val(s, ins.ops[0])
            v = self.const(s, self.val(s, ins.ops[2])) if len(ins.ops) > 2 else 0
            if v is None or v & 1:
                self.drop(s, lambda x: x[0] == "fd" and x[1] == a)
        elif n == "close":
            a = self.val(s, ins.ops[0])
            self.drop(s, lambda x: x[0] == "fd" and x[1] == a)
        elif ins.op == "call" and (n is None or n in self.execs or any(isinstance(o, GRef) and o.name in self.execs for o in ins.ops)):
            self.check(s, ins, "a program may be started")

    def on_branch(self, s, t, c, want):
        self.drop(s, lambda x: x[0] == "fd" and self.neg(s, x[1]))

    def check(self, s, ins, when):
        for x in self.get(s, "fd"):
            if not self.neg(s, x[1]):
                self.report(s, ins, f"cloexec:{x[2]}:{x[3]}", f"the descriptor from {x[2]} is inherited by programs keyd starts: not marked close-on-exec when {when}")

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op == "ret":
            self.check(s, t, f"{self.fn.src} returns")


def run(ctx):
    m = ctx.mod
    root = ctx.need(m.fn("run_daemon"), "run_daemon not found")
    live = reach(m, [root])
    starts = [f for f in live.values() if (libcalls(m, f) & (EXECS | {"posix_spawn", "posix_spawnp"}))]

    def starters(ctx):
        for n in ("system", "popen", "posix_spawn", "posix_spawnp"):
            for g, i in callers(m, n):
                if g.name in live:
                    ctx.violation(f"{n}-{g.src}", f"{g.src} starts a program with {n}, which does not detach it", m.where(i))
        sites = [g for e in EXECS | {"fork", "vfork"} for g, i in callers(m, e) if g.name in live]
        ctx.need(sites, "the daemon starts no programs")
        sub = {f.name: set(reach(m, [f])) for f in live.values()}
        cand = [f for f in live.values() if all(g.name in sub[f.name] for g in sites)]
        mini = [f for f in cand if not any(g is not f and g.name in sub[f.name] and f.name not in sub[g.name] for g in cand)]
        ctx.need(mini, "no function contains both fork and exec")
        r = min(mini, key=lambda f: len(sub[f.name]))
        f = inline(m, r, reaching(m, EXECS | {"fork", "vfork", "waitpid", "wait", "dup2", "close", "open", "_exit"}))
        e = Proc(m, f)
        e.run()
        e.flush(ctx)
        ctx.sample(f"process automaton over {r.src}, {len(e.exits)} exits")
        ctx.need(any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in EXECS for i in f.insts()), "no exec in the starting function")
        return r
    r = ctx.rule("programs run in a reaped, redirected grandchild; no started process returns", starters)

    def fds(ctx):
        execs = {f.name for f in live.values() if set(g.name for g in starts) & set(reach(m, [f]))}
        skip = set(reach(m, [r])) if r else set()
        n = 0
        for f in live.values():
            if f.name in skip:
                continue
            if any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in MAKERS for i in f.insts()):
                g = inline(m, f, lambda c, ch: c.file == f.file and c.name not in execs and bool({"fcntl", "close"} & libcalls(m, c)) and not set(MAKERS) & libcalls(m, c))
                e = Fds(m, g, ModSets(m), execs)
                e.run()
                if any(x[0].startswith("cloexec") for x in e.bad):
                    # a helper that only opens: judge it in its callers
                    cs = [c for c, _ in callers(m, f.src)]
                    rets = any(t.op == "ret" for s, t in e.exits)
                    if cs and f.ret.k == "int" and all(x[1].endswith("returns") for x in e.bad):
                        for c in cs:
                            g2 = inline(m, c, lambda d, ch: d is f or (d.file == c.file and d.name not in execs and bool({"fcntl", "close"} & libcalls(m, d)) and not set(MAKERS) & libcalls(m, d)))
                            e2 = Fds(m, g2, ModSets(m), execs)
                            e2.run()
                            e2.flush(ctx)
                        ctx.count("call_sites", e.events)
                        n += e.events
                        continue
                e.flush(ctx)
                n += e.events
                ctx.sample(f"{f.src}: descriptors created")
        ctx.need(n >= 4, "the daemon opens no descriptors")
    ctx.rule("long-lived descriptors are close-on-exec", fds)
