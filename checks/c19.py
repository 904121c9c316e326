"""C19: order of the calls that set up the control socket. The start-up path of the daemon (run_daemon with everything that touches
the lock or the socket inlined) is simulated symbolically; the automaton remembers which of lock, unlink, bind, listen and chmod
succeeded. Every touch of the socket path must be dominated by a successful exclusive, non-blocking flock of a lock file with a
fixed name; the descriptor handed to the event loop must be bound, listening and not open to others; no path continues after a
refused lock; the lock descriptor is neither closed nor unlocked."""
from seq import *

LIBS = {"flock", "lockf", "bind", "listen", "chmod", "fchmod", "unlink", "rename", "setgid", "umask", "remove", "chown"}
ASSUMPTIONS = ["flock, bind, listen and chmod behave as documented by Linux", "the umask the daemon is started with does not grant write permission to others"]


class Sock(Seq):
    def locked(self, s):
        for t in self.get(s, "lock"):
            if self.const(s, t[1]) == 0 and self.get(s, "lockfd"):
                return True
        return False

    def path_is_socket(self, a):
        p = strarg(self.mod, a)
        return p is None or not p.endswith(".lock")

    def call_open(self, s, ins, args):
        self.put(s, ("open", ("v", ins), args[0]))

    def call_snprintf(self, s, ins, args):
        fixed = all(isinstance(a, int) or strarg(self.mod, a) is not None for a in args[2:])
        self.drop(s, lambda x: isinstance(x, tuple) and x[0] == "buf" and x[1] == args[0])
        self.put(s, ("buf", args[0], fixed))

    def call_flock(self, s, ins, args):
        fd, how = args[0], args[1]
        if how == 8:
            return self.report(s, ins, "unlock", "the lock is given up again")
        if not isinstance(how, int) or not how & 2:
            return self.report(s, ins, "exclusive", "the lock taken is not exclusive")
        if not how & 4:
            self.report(s, ins, "nonblock", "a second daemon would wait for the lock for ever instead of giving up")
        self.drop(s, lambda x: isinstance(x, tuple) and x[0] in ("lock", "lockfd"))
        for t in self.get(s, "open"):
            if t[1] == fd:
                p = t[2]
                fixed = strarg(self.mod, p) is not None or ("buf", p, True) in s.auto
                if not fixed:
                    self.report(s, ins, "lockname", "the lock file's name is not the same for every daemon")
                self.put(s, ("lockfd", fd))
        self.put(s, ("lock", ("v", ins)))

    def touch(self, s, ins, what):
        if not self.locked(s):
            self.report(s, ins, f"{what}-unlocked", f"{what} of the control socket on a path where the exclusive lock was not obtained")

    def call_unlink(self, s, ins, args):
        if self.path_is_socket(args[0]):
            self.touch(s, ins, "unlink")
            if self.get(s, "bind"):
                self.report(s, ins, "unlink-bound", "the socket is removed after it was bound")
        elif self.get(s, "lockfd"):
            self.report(s, ins, "unlink-lock", "the lock file is removed, so that another daemon can lock a new one")
        self.put(s, "unlinked")

    call_remove = call_unlink

    def call_rename(self, s, ins, args):
        self.touch(s, ins, "rename")

    def call_bind(self, s, ins, args):
        self.touch(s, ins, "bind")
        if "unlinked" not in s.auto:
            self.report(s, ins, "stale", "a socket left behind by an earlier daemon is not removed before binding, so a restart fails")
        if not [1 for t in self.get(s, "grp") if self.const(s, t[1]) == 0] and not self.nogroup(s):
            self.report(s, ins, "group", "the socket is bound before the daemon's group was set to the keyd group")
        self.put(s, ("bind", args[0], ("v", ins)))

    def nogroup(self, s):
        return any(self.const(s, t[1]) == 0 for t in self.get(s, "getgr"))

    def call_getgrnam(self, s, ins, args):
        self.put(s, ("getgr", ("v", ins)))

    def call_setgid(self, s, ins, args):
        ok = any(isinstance(a, tuple) and a[0] == "v" and isinstance(a[1], Inst) and a[1].op == "load" for a in args)
        if ok:
            self.put(s, ("grp", ("v", ins)))
    call_setegid = call_setgid

    def call_listen(self, s, ins, args):
        if not [t for t in self.get(s, "bind") if t[1] == args[0]]:
            self.report(s, ins, "listen-order", "listen on a descriptor which is not bound")
        self.put(s, ("listen", args[0], ("v", ins)))

    def mode(self, s, ins, mode):
        if not isinstance(mode, int) or mode & 7:
            self.report(s, ins, "mode", f"others get access to the control socket (mode {mode:o})" if isinstance(mode, int) else "unknown socket mode")
        elif mode & 0o660 != 0o660:
            self.report(s, ins, "mode-group", f"owner and group cannot both use the control socket (mode {mode:o})")
        else:
            self.put(s, "chmod")

    def call_chmod(self, s, ins, args):
        self.touch(s, ins, "chmod")
        if not self.get(s, "bind"):
            self.report(s, ins, "chmod-order", "permissions are set before the socket exists")
        else:
            self.mode(s, ins, args[1])

    def call_umask(self, s, ins, args):
        if not isinstance(args[0], int) or args[0] & 7 != 7:
            self.report(s, ins, "umask", "the umask lets others connect to the socket before its mode is set")

    def call_close(self, s, ins, args):
        if ("lockfd", args[0]) in s.auto and self.locked(s):
            self.report(s, ins, "close-lock", "the descriptor holding the lock is closed, which releases it")

    def call_evloop_add_fd(self, s, ins, args):
        self.put(s, "added")
        v = args[0]
        b = [t for t in self.get(s, "bind") if t[1] == v and self.nonneg(s, t[2])]
        l = [t for t in self.get(s, "listen") if t[1] == v and self.nonneg(s, t[2])]
        if not self.locked(s):
            self.report(s, ins, "serve-unlocked", "the daemon goes on to serve requests although it did not obtain the lock")
        elif not b or not l:
            self.report(s, ins, "serve-unbound", "the daemon goes on to serve requests on a socket that is not bound and listening")
        elif "chmod" not in s.auto:
            self.report(s, ins, "serve-mode", "the control socket's mode is never restricted to owner and group")

    def call_evloop(self, s, ins, args):
        if not self.locked(s):
            self.report(s, ins, "run-unlocked", "the daemon starts processing devices although it did not obtain the lock")

    def call_vkbd_init(self, s, ins, args):
        if not self.locked(s):
            self.report(s, ins, "run-unlocked", "the daemon creates its virtual devices although it did not obtain the lock")


def run(ctx):
    m = ctx.mod

    def rule(ctx):
        root = ctx.need(m.fn("run_daemon"), "run_daemon not found")
        cut = {"evloop", "vkbd_init", "evloop_add_fd"}
        w = reaching(m, LIBS | {"getgrnam"})
        f = inline(m, root, lambda c, ch: c.src not in cut and w(c, ch))
        e = Sock(m, f)
        e.run()
        e.flush(ctx)
        ctx.need(e.events >= 6, "the start-up path contains no socket set-up")
        for need in ("flock", "bind", "listen"):
            ctx.need(any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == need for i in f.insts()), f"no {need} on the start-up path")
        inl = {c[0] for i in f.insts() for c in (i.chain or ())} | {root.name}
        for n in ("unlink", "remove", "rename", "chmod", "bind", "flock"):
            for g, i in callers(m, n):
                ctx.count("call_sites")
                if g.name not in inl and g.file != "src/monitor.c":
                    before = reachable_from_main_before(m, g, root)
                    if before:
                        ctx.violation(f"outside-{n}-{g.src}", f"{n} is called in {g.src}, outside the locked set-up of the socket", m.where(i))
    ctx.rule("every touch of the control socket follows the exclusive lock; no service without it", rule)


def reachable_from_main_before(m, g, root):
    """Can g run in a process which has not passed the set-up (called from main without run_daemon)?"""
    main = m.fn("main")
    if main is None:
        return True
    seen, work = set(), [main]
    while work:
        f = work.pop()
        if f.name in seen or f is root:
            continue
        seen.add(f.name)
        if f is g:
            return True
        for i in f.insts():
            for o in list(i.ops) + ([i.callee] if i.op == "call" else []):
                if isinstance(o, GRef) and o.name in m.fns:
                    work.append(m.fns[o.name])
    return False
