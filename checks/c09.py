"""C09: macros and injected text. The macro interpreter is simulated once per kind of entry, with an arbitrary entry: the keys sent
during one entry form a balanced sequence (every press released, nothing released that was not pressed), except that a held key stays
down until the entry that ends its group, which releases exactly the held entries since the group began. The macro parser is
simulated to show that every group it opens is ended. Injected text is simulated per character: every path types at least one
complete key or refuses the request."""
from seq import *

ASSUMPTIONS = ["unicode_get_sequence fills in its four codes (C22 decides which)"]


class Keys(Seq):
    """Balanced presses: auto holds ("down", key)."""

    def fresh_load(self, s, addr, ins):
        r = addr
        if isinstance(addr, tuple) and addr[0] == "a":
            r = addr[1]
        if isinstance(r, tuple) and (r[0] == "al" or r[0] == "v" and isinstance(r[1], Arg)):
            # the same storage read twice during one item gives the same value
            k = (repr(addr), ins.ty.a if ins.ty.k == "int" else 64)
            if k not in self.syms:
                self.syms[k] = Sym("m", k[1])
            return ("v", self.syms[k])
        return ("v", ins)

    def output(self, s, ins, code, state):
        code = canon(code)
        self.events += 1
        st = self.const(s, state)
        if st is None:
            t = self.truth(s, state)
            st = None if t is None else int(t)
        if st is None:
            self.report(s, ins, "state", "a key is sent with an undetermined state")
        elif st:
            if ("down", code) in s.auto:
                self.report(s, ins, "twice", "a key is pressed again before it was released")
            self.put(s, ("down", code), ("any",))
            self.pressed(s, ins, code)
        else:
            if ("down", code) not in s.auto:
                self.released(s, ins, code)
            self.drop(s, lambda x: x == ("down", code))
            self.put(s, ("any",))

    def pressed(self, s, ins, code):
        pass

    def released(self, s, ins, code):
        self.report(s, ins, "release", "a key is released that this item did not press")

    def balanced(self, s, t):
        if self.get(s, "down"):
            self.report(s, t, "held", "an item leaves a key down")

    def forget(self, s):
        """Start of the next item."""
        self.drop(s, lambda x: True)
        sy = set(self.syms.values())
        def has(k):
            return isinstance(k, tuple) and (k[0] == "v" and k[1] in sy or any(has(x) for x in k))
        for k in [k for k in s.facts if has(k)]:
            del s.facts[k]
        for k in [k for k, v in s.mem.items() if has(v)]:
            del s.mem[k]


def lastf(addr):
    return addr[2][-1] if isinstance(addr, tuple) and addr[0] == "a" and addr[2] else None


class Exec(Keys):
    def setup(self, cfg, outer, inner, typ, hold):
        self.cfg, self.outer, self.inner, self.typ, self.hold = cfg, outer, inner, typ, hold
        self.syms = {}
        self.inbody = {h: cfg.loops[h] for h in inner}
        self.innerblocks = set().union(*self.inbody.values()) if inner else set()

    def seed(self, s):
        pass

    def after_inst(self, s, ins):
        if ins.op == "load" and lastf(self.val(s, ins.ops[0])) == ("f", "macro_entry", "type") and ins.block in self.cfg.loops[self.outer]:
            a = self.val(s, ins.ops[0])
            if ins.block in self.innerblocks and not self.isouter(s, a):
                self.put(s, ("type", a[1:], s.env[ins]))
                return
            self.seen = True
            s.env[ins] = self.typ

    def isouter(self, s, a):
        i = [p for p, _, _ in self.cfg.counted(self.outer)]
        ix = [canon(e[1]) for e in a[2] if e[0] == "x"]
        return any(canon(s.env.get(p)) in ix for p in i if p in s.env)

    def on_indirect(self, s, ins, args):
        if len(args) != 2:
            return
        if ins.block in self.innerblocks and self.typ == self.rel:
            self.drop(s, lambda x: x[0] == "rel")
            st = self.const(s, args[1])
            if st is None or st:
                self.report(s, ins, "group-press", "the end of a group presses a key")
            self.put(s, ("rel", ins, canon(args[0])))
            self.relcheck(s, ins, canon(args[0]))
            return
        self.output(s, ins, args[0], args[1])

    def relcheck(self, s, ins, tok):
        # the released key is the data of the entry whose type was tested
        ty = self.get(s, "type")
        if not ty:
            self.report(s, ins, "group-type", "the end of a group releases entries that were never held")
            return
        l, h, e = self.rng(s, ty[-1][2])
        if not (l == h == self.holdt):
            self.report(s, ins, "group-type", "the end of a group releases entries that were never held")

    def pressed(self, s, ins, code):
        if self.typ == self.holdt:
            self.put(s, ("held", code))

    def balanced(self, s, t):
        d = self.get(s, "down")
        if self.typ == self.holdt:
            if len(d) != 1:
                self.report(s, t, "hold", "a held key is not pressed exactly once")
            return
        if self.typ == self.timeout and self.get(s, "any"):
            self.report(s, t, "pause", "a pause sends a key")
        if self.typ == self.uni:
            pass
        if d:
            self.report(s, t, "held", "an item leaves a key down")
        if self.typ in (self.keyseq, self.uni) and not self.get(s, "any"):
            self.report(s, t, "nothing", "an item sends no key")
        if self.typ == self.uni and len(self.get(s, "u")) != 4:
            self.report(s, t, "compose", "not all four keys of a compose sequence are sent")

    def output(self, s, ins, code, state):
        Keys.output(self, s, ins, code, state)
        if self.typ == self.uni and isinstance(code, tuple):
            self.put(s, ("u", canon(code)))

    def _edge(self, s, b, tgt, t, heap, w):
        if tgt in self.inner and b in self.inbody[tgt] and self.typ == self.rel:
            ty, rel = self.get(s, "type"), self.get(s, "rel")
            if ty:
                l, h, e = self.rng(s, ty[-1][2])
                if not (self.holdt < l or self.holdt > h or self.holdt in e) and not rel:
                    self.report(s, t, "group-missed", "a held key is not released at the end of its group")
            self.drop(s, lambda x: x[0] in ("type", "rel"))
        if tgt is self.outer and b in self.cfg.loops[tgt]:
            self.balanced(s, t)
            if self.hold is not None:
                self.holdstep(s, b, t)
            self.forget(s)
        Seq._edge(self, s, b, tgt, t, heap, w)

    def _enter(self, s, b, heap):
        if b is self.outer and self.hold is not None:
            # whatever came before
            s.facts.pop(("v", self.hold), None)
            s.env[self.hold] = ("v", self.hold)
        Seq._enter(self, s, b, heap)

    def on_branch(self, s, t, c, want):
        if self.hold is not None:
            l, h, e = self.rng(s, ("v", self.hold))
            if l == h and l in (-1, (1 << self.hold.ty.a) - 1):
                self.put(s, ("h", "none"))
            elif l > -1 or -1 in e or (1 << self.hold.ty.a) - 1 in e:
                self.put(s, ("h", "some"))

    def holdstep(self, s, b, t):
        p = self.hold
        new = None
        for x, q in p.incoming:
            if q is b:
                new = self.val(s, x)
        own = s.env.get(p, ("v", p))
        i = [s.env.get(q, ("v", q)) for q, _, _ in self.cfg.counted(self.outer) if q is not p]
        l, h, _ = self.rng(s, new)
        if self.typ == self.holdt:
            if ("h", "none") in s.auto:
                if canon(new) not in [canon(x) for x in i] and not (isinstance(new, int) and new in [self.const(s, x) for x in i]):
                    self.report(s, t, "hold-start", "the beginning of a group of held keys is not recorded")
            elif new != own:
                self.report(s, t, "hold-moved", "the beginning of a group moves while keys are held")
        elif self.typ == self.rel:
            if not (l == h and l in (-1, (1 << p.ty.a) - 1)):
                self.report(s, t, "hold-reset", "the end of a group does not close the group")
        elif new != own and not (l == h and self.rng(s, own)[:2] == (l, h)):
            self.report(s, t, "hold-moved", "an item changes where the group of held keys began")


def interpreter(ctx):
    m = ctx.mod
    m.enum("MACRO_HOLD")
    T = {k: m.enum("MACRO_" + k) for k in ("KEYSEQUENCE", "HOLD", "RELEASE", "UNICODE", "TIMEOUT")}
    f = ctx.need(m.fn("macro_execute"), "macro_execute not found")
    f = inline(m, f, lambda c, ch: c.file == "src/macro.c")
    cfg = CFG(f)
    outs = [i for i in f.insts() if i.op == "call" and not isinstance(i.callee, GRef) and len(i.ops) == 2]
    ctx.need(outs, "the macro interpreter sends no keys")
    tops = {cfg.loops_of(i.block)[-1] for i in outs if cfg.loops_of(i.block)}
    ctx.need(len(tops) == 1 and all(cfg.loops_of(i.block) for i in outs), "the macro interpreter is not one loop over the entries")
    outer = tops.pop()
    inner = [h for h in cfg.loops if h is not outer and h in cfg.loops[outer]]
    # the loop over the entries starts at the first and covers all
    cover = False
    for p, init, step in cfg.counted(outer):
        for b, pred, x, off in cfg.bound(outer, p):
            if isinstance(x, Inst) and x.op == "load" and ModSets(m)._addr(x.ops[0])[1][-1:] == [("macro", "sz")]:
                cover = True
                if not (isinstance(init, Const) and init.v == 0 and step == 1 and pred in ("ult", "slt", "ne") and off == 0):
                    ctx.violation("coverage", "not every entry of a macro is played", m.where(b.insts[-1]))
    # the release loop: from the start of the group up to this entry
    hold = None
    oc = [p for p, _, _ in cfg.counted(outer)]
    loops = []
    for h in inner:
        for p, init, step in cfg.counted(h):
            q = strip(init) if isinstance(init, Inst) else None
            if isinstance(q, Inst) and q.op == "phi" and q.block is outer and q not in oc:
                for b, pred, x, off in cfg.bound(h, p):
                    if isinstance(x, Inst) and x.op in ("add", "sub") and strip(x.ops[0]) in oc and isinstance(x.ops[1], Const):
                        k = x.ops[1].v - ((1 << x.ty.a) if x.ops[1].v >> (x.ty.a - 1) else 0)
                        if (k if x.op == "add" else -k) < 0:
                            ctx.violation("group-range", "the end of a group does not visit every entry of the group", m.where(b.insts[-1]))
                        else:
                            loops.append((h, p))
                            hold = q
                    if x in oc:
                        loops.append((h, p))
                        hold = q
                        if step != 1 or pred not in ("ult", "slt", "ne", "ule", "sle") or off != 0:
                            ctx.violation("group-range", "the end of a group does not visit every entry of the group", m.where(b.insts[-1]))
    ctx.count("entry_kinds", len(T))
    found = False
    for name, typ in sorted(T.items(), key=lambda x: x[1]):
        e = Exec(m, f)
        e.max_states = 3000000
        e.keyseq, e.holdt, e.rel, e.uni, e.timeout = T["KEYSEQUENCE"], T["HOLD"], T["RELEASE"], T["UNICODE"], T["TIMEOUT"]
        rl = [h for h, p in loops]
        e.setup(cfg, outer, rl if hold is not None else inner if name == "RELEASE" else [], typ, hold)
        e.unroll(cfg, 16, [h for h in inner if h not in rl])
        if hold is not None:
            e.inductive.add(hold)
        e.seen = False
        if name == "RELEASE" and hold is None:
            ctx.undecide(f.name, "the bookkeeping of held keys has a form that is not recognised")
            continue
        e.run()
        found |= e.seen
        e.flush(ctx, name + ":")
        ctx.sample(f"{name}: {sum(len(x) for x in e.states.values())} states, every entry balanced")
        if name == "RELEASE":
            rels = [i for i in outs if any(i.block in cfg.loops[h] for h in rl)]
            ctx.need(rels or e.bad, "held keys are never released")
    ctx.need(found, "the interpreter does not look at the kind of an entry")


class Parse(Seq):
    def setup(self, T):
        self.T = T

    def on_store(self, s, ins, addr, v):
        f = lastf(addr)
        if f == ("f", "macro_entry", "type"):
            t = self.const(s, v)
            self.types.add(t)
            if t == self.T["HOLD"]:
                self.put(s, ("open",))
            elif t == self.T["RELEASE"]:
                self.drop(s, lambda x: x == ("open",))
            self.drop(s, lambda x: x[0] == "last")
            self.put(s, ("last", t))
        elif f == ("f", "macro_entry", "data"):
            for _, t in self.get(s, "last"):
                self.data(s, ins, t, v)

    def data(self, s, ins, t, v):
        toks = [x for x in self.get(s, "code")]
        if t in (self.T["HOLD"], self.T["KEYSEQUENCE"]) and toks:
            # the key that was parsed is the key that is played
            c = toks[-1][1]
            c = c[1] if c[0] == "a" and not c[2] else c
            if ("parsed",) in s.auto and c[0] == "al" and not derives(ins.ops[0], c[1]):
                self.report(s, ins, "data", "the key an entry plays is not the one that was parsed")

    def on_branch(self, s, t, c, want):
        for x in self.get(s, "res"):
            if self.is0(s, x[1]):
                self.put(s, ("parsed",))

    def call_parse_key_sequence(self, s, ins, args):
        self.drop(s, lambda x: x[0] in ("code", "res", "parsed"))
        if isinstance(args[1], tuple):
            self.put(s, ("code", args[1]), ("res", ("v", ins)))

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op == "ret" and self.get(s, "open"):
            r = self.val(s, t.ops[0])
            if self.truth(s, r) is not True:
                self.report(s, t, "unended", "a macro is accepted whose group of held keys is never ended")


def derives(v, ptr, n=0):
    """Is v computed from what is stored at ptr?"""
    if not isinstance(v, Inst) or n > 12:
        return False
    if v.op == "load":
        o = v.ops[0]
        while isinstance(o, Inst) and o.op == "bitcast":
            o = o.ops[0]
        return o is ptr
    if v.op == "phi":
        return any(derives(x, ptr, n + 1) for x, _ in v.incoming)
    if v.op in ("zext", "sext", "trunc", "or", "and", "add", "shl", "select", "freeze"):
        return any(derives(x, ptr, n + 1) for x in v.ops)
    return False


class ParseLoop(Parse):
    def _edge(self, s, b, tgt, t, heap, w):
        if tgt is self.outer and b in self.cfg.loops[tgt]:
            if self.get(s, "open"):
                self.report(s, t, "unended", "a group of held keys is not ended before the next item of the macro")
            self.drop(s, lambda x: True)
        Seq._edge(self, s, b, tgt, t, heap, w)


def parser(ctx):
    m = ctx.mod
    T = {k: m.enum("MACRO_" + k) for k in ("KEYSEQUENCE", "HOLD", "RELEASE", "UNICODE", "TIMEOUT")}
    f = ctx.need(m.fn("macro_parse"), "macro_parse not found")
    f = inline(m, f, lambda c, ch: c.file == "src/macro.c")
    cfg = CFG(f)
    st = [i for i in f.insts() if i.op == "store" and ModSets(m)._addr(i.ops[1])[1][-1:] == [("macro_entry", "type")]]
    tops = {cfg.loops_of(i.block)[-1] for i in st if cfg.loops_of(i.block)}
    ctx.need(len(tops) == 1, "macro_parse is not one loop over the items")
    e = ParseLoop(m, f)
    e.setup(T)
    e.cfg, e.outer, e.types = cfg, tops.pop(), set()
    e.run()
    e.flush(ctx, "parse:")
    ctx.need(T["HOLD"] in e.types and T["KEYSEQUENCE"] in e.types, "macro_parse adds no entries")


class Text(Keys):
    def setup(self, cfg, outer):
        self.cfg, self.outer = cfg, outer
        self.syms = {}

    def call_vkbd_send_key(self, s, ins, args):
        self.output(s, ins, args[1], args[2])

    def call_unicode_lookup_index(self, s, ins, args):
        self.put(s, ("idx", ("v", ins)))

    def on_branch(self, s, t, c, want):
        for x in self.get(s, "idx"):
            if self.rng(s, x[1])[1] < 0:
                self.put(s, ("unknown",))

    def _edge(self, s, b, tgt, t, heap, w):
        if tgt is self.outer and b in self.cfg.loops[tgt]:
            self.balanced(s, t)
            if not self.get(s, "any"):
                self.report(s, t, "skipped", "a character is skipped and the request still succeeds")
            self.forget(s)
        Seq._edge(self, s, b, tgt, t, heap, w)

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op != "ret":
            return
        self.balanced(s, t)
        if self.get(s, "unknown") and self.truth(s, self.val(s, t.ops[0])) is not True:
            self.report(s, t, "unknown", "text with a character that cannot be typed is reported as typed")


def text(ctx):
    m = ctx.mod
    c = [f for f in m.fns.values() if f.file == "src/daemon.c" and any(i.op == "call" and isinstance(i.callee, GRef) and
         (i.callee.name == "utf8_read_char" or i.callee.name in m.fns and m.fns[i.callee.name].src == "utf8_read_char") for i in f.insts())]
    ctx.need(len(c) == 1, "the function that injects text is not found")
    f = inline(m, c[0], lambda g, ch: g.file == "src/daemon.c")
    cfg = CFG(f)
    cs = [i for i in f.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns and m.fns[i.callee.name].src == "vkbd_send_key"
          or i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "vkbd_send_key"]
    ctx.need(cs and all(cfg.loops_of(i.block) for i in cs), "injected text is not typed in a loop over its characters")
    tops = {cfg.loops_of(i.block)[-1] for i in cs}
    ctx.need(len(tops) == 1, "injected text is not typed in one loop")
    e = Text(m, f)
    e.setup(cfg, tops.pop())
    e.unroll(cfg, 16, [h for h in cfg.loops if h is not e.outer])
    e.run()
    e.flush(ctx, "text:")


class Simple(Keys):
    def setup(self, key):
        self.key = key
        self.syms = {}

    def on_other(self, s, ins, args, n):
        if n == self.key.name:
            self.output(s, ins, args[1], args[2])

    def on_exit(self, s, t):
        Seq.on_exit(self, s, t)
        if t.op == "ret":
            self.balanced(s, t)


def engine(ctx):
    """The engine's shortcut for macros that are a single key sequence."""
    m = ctx.mod
    key = ctx.need(key_fn(m), "the engine's key output function is not found")
    users = {f.name: f for f, i in callers(m, "macro_execute") if f.file == KFILE}
    ctx.need(users, "the engine does not play macros")
    for f in users.values():
        if f is descriptor_fn(m) or f is event_fn(m):
            ctx.undecide(f.name, "macros are played inside the action function")
            continue
        g = inline(m, f, lambda c, ch: c.file == KFILE and key.name != c.name and not writes_mods(m, c))
        e = Simple(m, g)
        e.setup(key)
        e.run()
        e.flush(ctx, "engine:")
        ctx.count("macro_players")


def writes_mods(m, c):
    """The modifier synchronisation (C12): loops over the modifier table."""
    return any(isinstance(o, (GRef, CExpr)) and "modifiers" in repr(o) for i in c.insts() for o in i.ops) or \
        any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns and m.fns[i.callee.name].file == KFILE and m.fns[i.callee.name] is not c and
            any("modifiers" in repr(o) for j in m.fns[i.callee.name].insts() for o in j.ops) for i in c.insts())


def run(ctx):
    ctx.rule("each kind of macro entry sends a balanced sequence of keys", interpreter)
    ctx.rule("every group of held keys the parser opens is ended", parser)
    ctx.rule("every injected character is typed completely or refused", text)
    ctx.rule("the engine's single-key shortcut releases what it presses", engine)
