"""C04: every control request is answered truthfully, exactly once. The event handler of the daemon is simulated from accept() on, with every
function that works on the connection inlined, once per request type (and once for a type that does not exist). The automaton follows the
connection (open, replied, closed, listening), the outcome of every worker the request is handed to (each outcome explored), and what is known
about the size and timeout fields when a worker with an effect on keys or bindings is reached."""
from seq import *

ASSUMPTIONS = ["a worker (macro_parse, input, kbd_eval) returns 0 exactly when it did what it was asked; see C09 and C14"]
LIMIT_TIMEOUT = 1000000
EFFECT = {"vkbd_send_key", "vkbd_mouse_move", "vkbd_mouse_scroll", "kbd_eval", "macro_execute", "config_add_entry"}
SINK = ("close", "write", "send", "recv", "read", "dprintf", "setsockopt", "shutdown")


def datasize(m):
    return m.fieldsize("ipc_message", "data")


class Req(Seq):
    max_states = 1500000

    def setup(self, name, typ):
        self.tname, self.typ = name, typ
        self.size, self.timeout, self.full = ("v", Sym("sz", 64)), ("v", Sym("timeout", 32)), self.mod.structsize("ipc_message")
        self.ulo = self.size

    def seed(self, s):
        m = self.mod
        ev = ("v", self.fn.args[0])
        s.mem[(("a", ev, (("f", "event", "type"),)), 4)] = m.enum("EV_FD_ACTIVITY")
        for x in (self.size, self.timeout):
            s.facts[x] = (0, INF, frozenset())

    # ---- the connection
    def con(self, s, v):
        return next((x for x in s.auto if x[0] == "con" and x[1] == v), None)

    def call_accept(self, s, ins, args):
        self.drop(s, lambda x: True)
        self.put(s, ("con", ("v", ins)))
    call_accept4 = call_accept

    def on_branch(self, s, t, c, want):
        for x in self.get(s, "con"):
            if self.rng(s, x[1])[1] < 0:
                self.drop(s, lambda y: y[0] in ("con",))

    def receive(self, s, ins, args):
        if self.con(s, args[0]):
            if any(x[0] in ("closed", "listening") for x in s.auto):
                self.report(s, ins, "use-closed", "a connection is read after it was closed or handed over")
            self.put(s, ("got", ("v", ins)))
    call_recv = call_read = call_recvfrom = receive

    def call_xread(self, s, ins, args):
        if self.con(s, args[0]):
            self.put(s, ("got", self.full))
    call_xread_all = call_xread

    def after_inst(self, s, ins):
        n = self.callname(ins)
        if n in ("recv", "read", "xread", "recvfrom"):
            a = self.val(s, ins.ops[1])
            if self.con(s, self.val(s, ins.ops[0])) and isinstance(a, tuple):
                r, p = (a[1], a[2]) if a[0] == "a" else (a, ())
                for f, w, v in (("type", 4, self.typ), ("sz", 8, self.size), ("timeout", 4, self.timeout)):
                    s.mem[(("a", r, p + (("f", "ipc_message", f),)), w)] = v
                self.buf = (r, p)
        for x in self.get(s, "res"):
            if x[1] == ("v", ins):
                s.facts[("v", ins)] = {0: (0, 0, frozenset()), 1: (1, INF, frozenset()), -1: (-INF, -1, frozenset())}[x[2]]
                self.drop(s, lambda y: y == x)

    def usable(self, s):
        g = self.get(s, "got")
        return g and all(self.const(s, x[1]) == self.full for x in g)

    def reply(self, s, ins, args):
        if not self.con(s, args[0]):
            return
        if "closed" in s.auto or ("closed",) in s.auto:
            self.report(s, ins, "write-closed", "a reply is written to a connection that is already closed")
        a = args[1]
        t = None
        if isinstance(a, tuple):
            r, p = (a[1], a[2]) if a[0] == "a" else (a, ())
            t = peek(self, s, ("a", r, p + (("f", "ipc_message", "type"),)), 4)
        k = self.const(s, t) if t is not None else None
        n = self.const(s, args[2])
        if k is None:
            if self.tname == "IPC_LAYER_LISTEN":
                return          # text of the listen protocol
            self.report(s, ins, "reply-kind", "a reply is sent that is neither success nor failure")
            return
        if n != self.full:
            self.report(s, ins, "reply-short", "a reply is sent that is not a whole message")
        if self.get(s, "reply"):
            self.report(s, ins, "twice", f"a request ({self.tname}) is answered twice")
        self.put(s, ("reply", k))
        self.events += 1
        if k == self.mod.enum("IPC_SUCCESS"):
            self.success(s, ins)
        elif k == self.mod.enum("IPC_FAIL"):
            self.fail(s, ins)
        else:
            self.report(s, ins, "reply-kind", "a reply is sent that is neither success nor failure")
    call_write = call_send = call_xwrite = reply

    def limits(self, s):
        return self.rng(s, self.size)[1] < datasize(self.mod) and self.rng(s, self.timeout)[1] <= LIMIT_TIMEOUT

    def success(self, s, ins):
        T = self.tname
        if not self.usable(s):
            self.report(s, ins, "success-unread", "a success is reported for a request that was not received completely")
            return
        if not T:
            self.report(s, ins, "success-unknown", "a request of unknown type is reported as successful")
            return
        done = {x[1] for x in self.get(s, "ok")}
        bad = {x[1] for x in self.get(s, "failed")}
        need = {"IPC_MACRO": "macro_execute", "IPC_INPUT": "vkbd_send_key", "IPC_BIND": "kbd_eval", "IPC_RELOAD": "opendir"}.get(T)
        if T == "IPC_LAYER_LISTEN":
            self.report(s, ins, "success-listen", "a listen request is answered and closed instead of becoming a listener")
        elif need not in done:
            self.report(s, ins, "success-" + T, f"{T} is reported as successful although it was not (fully) carried out")
        elif T != "IPC_BIND" and bad:
            self.report(s, ins, "success-failed-" + T, f"{T} is reported as successful although {', '.join(sorted(bad))} failed")

    def fail(self, s, ins):
        if not self.usable(s):
            return
        if not self.tname or not self.limits(s):
            return
        done = {x[1] for x in self.get(s, "ok")}
        bad = {x[1] for x in self.get(s, "failed")}
        T = self.tname
        if T == "IPC_BIND":
            if "kbd_eval" in done:
                self.report(s, ins, "fail-bind", "a binding accepted by a configuration is reported as refused")
        elif not bad:
            self.report(s, ins, "fail-" + T, f"{T} is reported as failed although nothing went wrong")

    def call_close(self, s, ins, args):
        if not self.con(s, args[0]):
            return
        if ("closed",) in s.auto:
            self.report(s, ins, "close-twice", "a connection is closed twice")
        if ("listening",) in s.auto:
            self.report(s, ins, "close-listener", "a connection is closed although it was registered as a listener")
        if not self.get(s, "reply") and self.usable(s) and not (self.tname == "IPC_LAYER_LISTEN"):
            self.report(s, ins, "close-silent", f"a request ({self.tname or 'unknown'}) is closed without a reply")
        self.put(s, ("closed",))

    def on_store(self, s, ins, addr, v):
        if self.con(s, v) and isinstance(addr, tuple) and addr[0] == "a" and addr[1][0] == "g":
            if self.tname != "IPC_LAYER_LISTEN":
                self.report(s, ins, "listen-other", "a connection that did not ask for it becomes a listener")
            if ("closed",) in s.auto:
                self.report(s, ins, "listen-closed", "a closed connection becomes a listener")
            self.put(s, ("listening",))

    # ---- the workers
    def on_other(self, s, ins, args, name):
        f = self.mod.fns.get(name)
        if f is None or not self.get(s, "con"):
            return
        cl = closure(self.mod, f)
        lb = libcalls(self.mod, f)
        if f.src not in EFFECT and not (cl & EFFECT) and f.src not in ("macro_parse",) and "opendir" not in lb:
            return
        role = f.src if f.src in ("macro_parse", "macro_execute", "kbd_eval") else "opendir" if "opendir" in lb else "vkbd_send_key"
        if cl & EFFECT or "opendir" in lb or f.src in EFFECT:
            if not self.usable(s):
                self.report(s, ins, "effect-unread", f"{f.src} acts on a request that was not received completely")
            elif not self.limits(s):
                self.report(s, ins, "effect-limit", f"{f.src} acts on a request whose size or timeout exceeds the limits")
            if not self.tname:
                self.report(s, ins, "effect-unknown", f"{f.src} acts on a request of unknown type")
            exp = {"IPC_MACRO": {"macro_execute"}, "IPC_INPUT": {"vkbd_send_key"}, "IPC_BIND": {"kbd_eval"}, "IPC_RELOAD": {"opendir"}}.get(self.tname, set())
            if self.tname and role not in exp:
                self.report(s, ins, f"effect-{self.tname}-{role}", f"{self.tname} is carried out by {f.src}")
        if role == "macro_execute" and any(x[1] == "macro_parse" for x in self.get(s, "failed")):
            self.report(s, ins, "effect-invalid", "a macro that could not be parsed is played")
        if self.get(s, "reply") and role != "macro_parse":
            self.report(s, ins, "late", f"{f.src} is carried out after the request was answered")
        if ins.ty.k == "void":
            self.put(s, ("ok", role))
            return
        out = []
        for k in (0, 1, -1):
            n = s.copy()
            self.drop(n, lambda x: x[0] == "res")
            self.put(n, ("res", ("v", ins), k), ("ok", role) if k == 0 else ("failed", role))
            out.append(n)
        return out

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op != "ret" or not self.get(s, "con"):
            return
        c, l = ("closed",) in s.auto, ("listening",) in s.auto
        if not c and not l:
            self.report(s, t, "leak-" + str(self.tname), f"a connection ({self.tname or 'unknown type'}) is neither closed nor kept as a listener")
        if not l and self.usable(s) and not self.get(s, "reply") and self.tname != "IPC_LAYER_LISTEN":
            self.report(s, t, "silent-" + str(self.tname), f"a request ({self.tname or 'unknown type'}) is never answered")


def root(ctx):
    m = ctx.mod
    fl = fdflow(m, SINK)
    c = [f for f in m.fns.values() if f.file == "src/daemon.c" and any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("accept", "accept4") for i in f.insts())]
    ctx.need(c, "no function of the daemon accepts connections")
    f = c[0]
    if f.src != "event_handler":
        h = m.fn("event_handler", "src/daemon.c")
        f = h or f
    return f, fl


def conn(m, f, fl, also=lambda c: False):
    """Inline everything that is handed the connection (or accepts it)."""
    def want(c, ch):
        return c.file == "src/daemon.c" and (also(c) or bool(fl.get(c.name)) or "accept" in libcalls(m, c) or bool(closure(m, c) & {"kbd_eval", "macro_parse", "macro_execute"} and
                                                 not closure(m, c) & {"config_parse"}))
    want.vararg = True
    return inline(m, f, want)


def accepted(ctx):
    m = ctx.mod
    f0, fl = root(ctx)
    f = conn(m, f0, fl)
    ms = ModSets(m)
    m.enum("IPC_FAIL")
    types = {k: v for k, v in m._enums.items() if k.startswith("IPC_")}
    ctx.need({"IPC_BIND", "IPC_INPUT", "IPC_MACRO", "IPC_RELOAD", "IPC_LAYER_LISTEN", "IPC_SUCCESS", "IPC_FAIL"} <= set(types), "the request types are not found")
    jobs = [(k if k not in ("IPC_SUCCESS", "IPC_FAIL") else None, v) for k, v in sorted(types.items())] + [(None, max(types.values()) + 1), (None, -1)]

    def one(ctx, job):
        e = Req(m, f, ms)
        e.setup(*job)
        e.run()
        e.flush(ctx)
        ctx.count("request_types")
        if job[0]:
            ctx.count("outcomes", len(e.exits))
            ctx.need(any(e.get(s, "reply") or ("listening",) in s.auto for s, t in e.exits) or e.bad, f"{job[0]} is never answered")
    ctx.pmap(one, jobs)


def client(ctx):
    """The client's exit status: a failure reply makes the command fail."""
    m = ctx.mod
    for f in m.fns.values():
        if f.file != "src/keyd.c" or not any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("xread", "read", "recv") for i in f.insts()):
            continue
        if not any(i.op == "store" and ModSets(m)._addr(i.ops[1])[1][-1:] == [("ipc_message", "type")] for i in f.insts()):
            continue
        g = inline(m, f, lambda c, ch: c.file == "src/keyd.c")
        if all(i.callee.name == "read" for i in g.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("xread", "read", "recv")):
            continue        # a stream of text, not a reply
        if not any(i.op == "ret" and i.ops and i.ops[0].ty.k == "int" for i in g.insts()):
            continue

        class C(Seq):
            def after_inst(self, s, ins):
                if self.callname(ins) in ("xread", "read", "recv"):
                    a = self.val(s, ins.ops[1])
                    if isinstance(a, tuple) and a[0] == "a":
                        s.mem[(("a", a[1], a[2] + (("f", "ipc_message", "type"),)), 4)] = self.t
                        self.put(s, "read")

            def on_exit(self, s, t):
                if t.op == "ret" and "read" in s.auto:
                    v = self.val(s, t.ops[0])
                    tr = self.truth(s, v)
                    if tr is not self.want:
                        self.report(s, t, f"client-{self.want}", "the client's exit status does not tell " + ("failure" if self.want else "success"))
        for k, w in (("IPC_FAIL", True), ("IPC_SUCCESS", False)):
            e = C(m, g)
            e.t, e.want = m.enum(k), w
            e.run()
            e.flush(ctx)
            ctx.count("client_checks")


def run(ctx):
    ctx.rule("every accepted connection gets exactly one truthful reply and one close, or becomes a listener", accepted)
    ctx.rule("the client reports failures", client)
