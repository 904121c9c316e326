"""C14: refused bindings. The function that adds a binding is simulated over LLVM IR with symbolic text: every refusing path leaves keymaps, chords and
aliases alone and has set the error message since the request began (or a refusing callee has); every accepting path changes only keymap entries of
the key or alias named, or the chord named, of the layer looked up, and copies there exactly the action that was parsed. The parser of actions is simulated
for every action name, count of arguments and failing argument: each refusal sets a message. No function reachable from the parser writes to a layer. The
chord lookup is evaluated on every pair of chords of up to three keys. The reporting of the message by the callers is followed."""
import itertools
from seq import *
from c20 import follow
import c13, c28
from c10 import lin

NONNULL = (1, 1 << 62, frozenset())
ASSUMPTIONS = ["C library string functions behave as documented"]
CFILE = "src/config.c"
ERR = ("a", ("g", "errstr"), ())


def iserr(args):
    return bool(args) and (args[0] == ERR or args[0] == ("g", "errstr"))


# ---------------------------------------------------------------- the parser of actions

class Said(c13.Fn):
    def call_snprintf(self, s, ins, args):
        if iserr(args):
            self.put(s, ("err",))
            return
        return c13.Fn.call_snprintf(self, s, ins, args)

    def call_parse_command(self, s, ins, args):
        if args[0] == self.S:
            self.put(s, ("cmd", args[1]))
            return self.outcomes(s, ins, "command", (-1,) if self.mode != "command" else (0, 1))

    def call_parse_macro_expression(self, s, ins, args):
        if c13.Fn.argno(self, args[0]) is not None:
            return c13.Fn.call_parse_macro_expression(self, s, ins, args)
        if args[0] == self.S:
            return self.outcomes(s, ins, "macro", (-1,) if self.mode != "macro" else (0, 1))

    def outcomes(self, s, ins, what, vals):
        out = []
        for v in vals:
            t = s.copy()
            self.put(t, ("force", ins, v))
            if v > 0:
                self.put(t, ("failed", what, "whole"))
            out.append(t)
        return out


def parser(ctx):
    m = ctx.mod
    g, f, ms = c13.setup(ctx)
    NORMAL, LAYOUT = m.enum("LT_NORMAL"), m.enum("LT_LAYOUT")
    names = set(c13.manual(ctx.repo)) | set(c13.rows(m) or {}) | {"?", "lettermod"}
    n = 0
    for mode, name, k, lt in [("fn", a, k, lt) for a in sorted(names) for k in range(0, 6) for lt in (NORMAL, LAYOUT)] + [(x, "?", 0, 0) for x in ("command", "macro", "none")]:
        e = Said(m, g, ms).setup(mode, name, k, lt)
        e.numbers, e.layers, e.named = {}, {}, {}
        follow(e, g, m)
        e.run()
        ctx.count("parser_runs")
        ctx.count("states", e.npoints)
        for s, t in e.got:
            r = e.const(s, e.val(s, t.ops[0]))
            if r == 0:
                continue
            n += 1
            if not e.get(s, "err") and not e.get(s, "failed"):
                ctx.violation(f"silent:{mode}:{name if mode == 'fn' else ''}", f"{'an action ' + name if mode == 'fn' else 'a ' + mode} is refused without a message", where=m.loc(t), path=trace_str(s.trace))
            if r is None:
                ctx.undecide("result of the parser", "not a constant")
    ctx.need(n, "the parser refuses nothing")


class Msg(Seq):
    """A callee: where it fails, a message has been set."""

    def setup(self, helpers):
        self.helpers, self.got = helpers, []
        return self

    def call_snprintf(self, s, ins, args):
        if iserr(args):
            self.put(s, ("err",))

    def on_other(self, s, ins, args, n):
        if n in self.helpers:
            out = []
            for v in (0, 1, -1):
                t = s.copy()
                self.put(t, ("force", ins, v))
                if v:
                    self.put(t, ("err",))
                out.append(t)
            return out

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def callees(ctx):
    m = ctx.mod
    ms = ModSets(m)
    for name, bad, helpers in (("macro_parse", lambda l, h: l != 0 or h != 0, ()), ("parse_macro_expression", lambda l, h: l != 0 or h != 0, ("macro_parse",)),
                               ("parse_command", lambda l, h: h > 0, ())):
        f = m.fn(name)
        if f is None:
            ctx.undecide(name, "not found")
            continue
        hs = {m.fn(h).name for h in helpers if m.fn(h)}
        g = inline(m, f, lambda c, ch: c.file == f.file and c.name not in hs)
        e = Msg(m, g, ms).setup(hs)
        e.run()
        ctx.count("states", e.npoints)
        for s, t in e.got:
            ctx.count("callee_exits")
            v = e.val(s, t.ops[0])
            l, h, ex = e.rng(s, v)
            if bad(l, h) and not e.get(s, "err"):
                if e.const(s, v) is None:
                    ctx.undecide(name, "its result is not known")
                else:
                    ctx.violation(f"silent-callee:{name}", "text is refused without a message", where=m.loc(t), path=trace_str(s.trace))


# ---------------------------------------------------------------- effects of the parser

FORBIDDEN = {("layer", "keymap"), ("layer", "chords"), ("layer", "nr_chords"), ("layer", "type"), ("layer", "mods"), ("layer", "name"), ("layer", "constituents"),
             ("layer", "nr_constituents"), ("config", "aliases"), ("config", "layers"), ("config", "nr_layers"), ("chord", "d"), ("chord", "keys"), ("chord", "sz")}


def effects(ctx):
    m = ctx.mod
    f = ctx.need(c13.parser(m), "the parser of actions was not found")
    ms = ModSets(m)
    n = 0
    for name in sorted(closure(m, f)):
        for h in m.fns.values():
            if h.src == name:
                n += 1
                for i in h.insts():
                    if i.op == "store":
                        flds = [x for x in ms._addr(i.ops[1])[1] if x]
                        hit = [x for x in flds if x in FORBIDDEN]
                        if hit and not (h is f or True) or hit:
                            ctx.violation(f"writes:{hit[0][1]}", f"the parser of actions writes to {hit[0][0]}.{hit[0][1]}", where=m.where(i))
    ctx.count("functions", n)
    # the action is parsed into memory that is no key's
    for h, i in callers(m, f.src):
        a = strip(i.ops[1])
        flds = [x for x in ms._addr(i.ops[1])[1] if x]
        ctx.count("parser_calls")
        if any(x in FORBIDDEN for x in flds):
            ctx.violation("in-place", "an action is parsed into the place of a binding, which a refusal would leave half changed", where=m.where(i))


# ---------------------------------------------------------------- adding a binding

class Add(Seq):
    """tags: ('layer', name) ('kvp', address) ('pd', dst, ok) ('code', v, text) ('is', index) ('chord', v, n) ('changed', what) ('err',) ('zero', address)"""
    split_selects = True

    def setup(self, dot, paren, eq, pfn):
        self.E, self.C = Sym("expression", 64, NONNULL), Sym("config", 64, NONNULL)
        self.KEY, self.VAL = Sym("key", 64, NONNULL), Sym("value", 64)
        self.pos, self.pfn = {".": dot, "(": paren, "=": eq}, pfn
        self.buf = None
        self.keyslot = self.valslot = None
        self.got, self.unknown = [], set()
        self.CH, self.PLUS, self.CHR = Sym("chord", 64, NONNULL), Sym("plus", 64, NONNULL), Sym("chr", 8, (1, 127, frozenset()))
        self.lidx = Sym("layerindex", 32, (0, 31, frozenset()))
        return self

    def seed(self, s):
        s.env[self.fn.args[0]], s.env[self.fn.args[1]] = ("v", self.C), ("v", self.E)

    def force(self, s, ins, vals, tags=None):
        out = []
        for k, v in enumerate(vals):
            t = s.copy()
            self.put(t, ("force", ins, v))
            if tags:
                self.put(t, *tags[k])
            out.append(t)
        return out

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)
        for x in self.get(s, "later"):
            if x[1] is ins:
                self.put(s, (x[2], s.env[ins]) + x[3:])
                self.drop(s, lambda y: y == x)

    def fresh_load(self, s, addr, ins):
        if self.keyslot is not None and addr == self.keyslot:
            return ("v", self.KEY)
        if self.valslot is not None and addr == self.valslot:
            return ("v", self.VAL)
        if isinstance(addr, tuple):
            r, p = (addr[1], addr[2]) if addr[0] == "a" else (addr, ())
            if self.buf is not None and r == self.bufroot() and not p and ins.ty.k == "int":
                return ("v", self.CHR)
        return ("v", ins)

    def bufroot(self):
        return self.buf[1] if self.buf[0] == "a" else self.buf

    def offset(self, a):
        """Position of a pointer into the copy of the expression."""
        if self.buf is None or not isinstance(a, tuple):
            return None
        if a == self.buf:
            return 0
        b = self.buf if self.buf[0] == "a" else ("a", self.buf, ())
        if a[0] == "a" and a[1] == b[1] and a[2][:len(b[2])] == b[2] and len(a[2]) == len(b[2]) + 1 and a[2][-1][0] == "x" and isinstance(a[2][-1][1], int):
            return a[2][-1][1]
        return None

    def at(self, k):
        b = self.buf if self.buf[0] == "a" else ("a", self.buf, ())
        return b if k == 0 else ("a", b[1], b[2] + (("x", k),))

    def call_strcpy(self, s, ins, args):
        if args[1] == ("v", self.E):
            self.buf = args[0]
    call_strncpy = call_memcpy = call_strcpy

    def call_snprintf(self, s, ins, args):
        if iserr(args):
            self.put(s, ("err",))
        elif len(args) > 3 and args[3] == ("v", self.E):
            self.buf = args[0]

    def call_strlen(self, s, ins, args):
        if args[0] == ("v", self.E):
            return self.force(s, ins, [12, 100000])

    def call_strchr(self, s, ins, args):
        c = self.const(s, args[1])
        k = self.offset(args[0])
        if k is not None and c is not None and chr(c) in self.pos:
            p = self.pos[chr(c)]
            if p is not None and p < k:
                p = None
            self.put(s, ("force", ins, 0 if p is None else self.at(p)))
        elif k is not None:
            self.unknown.add("another character is looked for")
        elif args[0] == ("v", self.KEY) and c == ord("+"):
            return self.force(s, ins, [0, ("v", self.PLUS)], [[("plain",)], [("combo",)]])

    def on_branch(self, s, t, c, want):
        neg = isinstance(c, tuple) and c[0] == "not"
        if neg:
            c, want = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp":
            a, b = self.offset(c[2]), self.offset(c[3])
            if a is not None and b is not None:
                r = {"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b, "eq": a == b, "ne": a != b, "slt": a < b, "sgt": a > b}.get(c[1])
                if r is not None and r != want:
                    return False

    def call_parse_kvp(self, s, ins, args):
        k = self.offset(args[0])
        if k is None:
            self.unknown.add("the key and value are taken from elsewhere")
        self.keyslot, self.valslot = args[1], args[2]
        self.put(s, ("kvp", k, any(x[1] == self.pos["."] for x in self.get(s, "zero"))))

    def call_config_get_layer_index(self, s, ins, args):
        n = strarg(self.mod, args[1])
        k = self.offset(args[1])
        return self.force(s, ins, [-1, ("v", self.lidx)], [[("layer", n if n is not None else k), ("nolayer",)], [("layer", n if n is not None else k)]])

    def parse_action(self, s, ins, args):
        if args[0] != ("v", self.VAL):
            self.report(s, ins, "value", "what is parsed as the action is not the value of the binding")
        return self.force(s, ins, [0, -1], [[("pd", args[1], 1)], [("pd", args[1], 0)]])

    def call_lookup_keycode(self, s, ins, args):
        self.put(s, ("later", ins, "code", args[0]))

    def call_layer_lookup_chord(self, s, ins, args):
        self.put(s, ("looked", args[0], args[1], args[2]))
        return self.force(s, ins, [0, ("v", self.CH)], [[("newchord",)], [("found",)]])

    def call_strtok(self, s, ins, args):
        if args[0] == ("v", self.KEY):
            self.put(s, ("tok",))
        self.put(s, ("later", ins, "token"))

    def call_strcmp(self, s, ins, args):
        for a, b in (args[:2], args[1::-1]):
            if b == ("v", self.KEY) and isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", self.C) and c28.index_in(a, "aliases") is not None:
                return self.force(s, ins, [0, 1], [[("is", c28.index_in(a, "aliases"))], []])

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is not None and f is self.pfn:
            return self.parse_action(s, ins, args)
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            self.write(s, ins, args[0], args[1], None)
        elif n.startswith("llvm.memset"):
            self.write(s, ins, args[0], None, None)

    def on_store(self, s, ins, addr, v):
        k = self.offset(addr)
        if k is not None and v == 0:
            self.put(s, ("zero", k))
            return
        self.write(s, ins, addr, None, v)

    def write(self, s, ins, dst, src, v):
        """Something of the configuration is changed."""
        if not isinstance(dst, tuple):
            return
        r, p = (dst[1], dst[2]) if dst[0] == "a" else (dst, ())
        isd = src is not None and any(x[2] and c13.same(x[1], src) for x in self.get(s, "pd")) or \
            v is not None and self.partof(s, v)
        if r == ("v", self.CH):
            self.put(s, ("changed", "chord", "again"))
            if not isd:
                self.report(s, ins, "other-action", "a chord gets something else than the action that was parsed")
            return
        if r != ("v", self.C):
            return
        fs = [e[2] for e in p if e[0] == "f"]
        if "layers" in fs and c13.nf1(c28.index_in(dst, "layers")) != c13.nf1(("v", self.lidx)):
            self.report(s, ins, "layer", "a layer other than the one looked up is changed")
        if "keymap" in fs:
            i = canon(c28.index_in(dst, "keymap"))
            self.put(s, ("changed", "key", i))
            alias = any(canon(x[1]) == i for x in self.get(s, "is"))
            code = [x for x in self.get(s, "code") if canon(x[1]) == i]
            if alias:
                pass
            elif code and code[-1][2] == ("v", self.KEY):
                l, h, ex = self.rng(s, code[-1][1])
                if l <= 0 <= h and 0 not in ex:
                    self.report(s, ins, "no-key", "a binding for something that is no key is accepted")
            else:
                self.report(s, ins, "other-key", "a key other than the one named is changed")
            if not isd:
                self.report(s, ins, "other-action", "a key gets something else than the action that was parsed")
            if self.get(s, "combo"):
                self.report(s, ins, "combo", "a combination of keys changes a single key")
        elif "chords" in fs:
            self.put(s, ("changed", "chord", "new"))
            if not self.get(s, "newchord"):
                self.report(s, ins, "dup-chord", "a chord is added although it was not looked up first, or exists")
            i = c28.index_in(dst, "chords")
            self.put(s, ("slot", i))
            if fs[-1] == "d" and not isd:
                self.report(s, ins, "other-action", "a chord gets something else than the action that was parsed")
            if fs[-1] == "keys" and not any(src is not None and c13.same(x[2], src) for x in self.get(s, "looked")):
                self.report(s, ins, "chord-keys", "a chord is stored for other keys than those looked up")
            if fs[-1] == "sz" and v is not None and not any(c13.nf1(x[3]) == c13.nf1(v) for x in self.get(s, "looked")):
                self.report(s, ins, "chord-size", "a chord is stored for another number of keys than were looked up")
            for x in ("d", "keys", "sz"):
                if fs[-1] == x:
                    self.put(s, ("part", x))
            if fs[-1] == "chords":
                for x in ("d", "keys", "sz"):
                    self.put(s, ("part", x))
        elif fs[-1:] == ["nr_chords"]:
            self.put(s, ("changed", "chord", "count"), ("cnt", v))
        elif fs and (fs[0] in ("layers", "aliases", "nr_layers") or fs[-1] in ("type", "mods", "name")):
            self.put(s, ("changed", fs[-1], 0))
            self.report(s, ins, "else:" + fs[-1], f"a binding changes {fs[-1]}")

    def partof(self, s, v):
        """A field copied from the parsed action."""
        for x in self.get(s, "pd"):
            r = x[1][1] if x[1][0] == "a" else x[1]
            if isinstance(v, tuple) and r in _roots(v):
                return True
            if isinstance(v, tuple) and v[0] == "v" and isinstance(v[1], Inst) and v[1].op == "load":
                a = self.val(s, v[1].ops[0])
                if isinstance(a, tuple) and (a[1] if a[0] == "a" else a) == r:
                    return True
        return False

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def _roots(v):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] in ("al", "v", "g"):
                out.add(x)
            for y in x:
                go(y)
    go(v)
    return out


def adding(ctx):
    m = ctx.mod
    f = m.fn("config_add_entry")
    pf = c13.parser(m)
    ctx.need(f is not None and pf is not None, "config_add_entry not found")
    held = ("config_get_layer_index", "lookup_keycode", "parse_kvp", "layer_lookup_chord")
    for h in held:
        if m.fn(h) is None:
            ctx.undecide("adding a binding", f"{h} not found")
            return
    g = inline(m, f, lambda c, ch: c.file == CFILE and c is not pf and c.src not in held)
    ms = ModSets(m)
    ok = bad = 0
    kinds = set()
    for dot, paren, eq in itertools.product((None, 0, 5), (None, 3, 8), (None, 4, 9)):
        e = Add(m, g, ms).setup(dot, paren, eq, pf)
        e.run()
        e.flush(ctx)
        ctx.count("runs")
        for u in e.unknown:
            ctx.undecide("adding a binding", u)
        if e.unknown:
            return
        named = dot == 5 and paren != 3 and eq != 4
        text = "".join({dot: ".", paren: "(", eq: "="}.get(i, "x") for i in range(12))
        for s, t in e.got:
            ctx.count("paths")
            w = dict(where=m.loc(t), path=trace_str(s.trace))
            r = e.const(s, e.val(s, t.ops[0]))
            ch = e.get(s, "changed")
            if r is None:
                ctx.undecide("adding a binding", "its result is not a constant")
                continue
            for x in e.get(s, "layer"):
                if (x[1] == 0) != named:
                    ctx.violation("named-layer", f"the layer of a binding of the form '{text}' is " + ("not the one named in it" if named else "taken from text that names none"), **w)
                elif not named and x[1] != "main":
                    ctx.violation("default-layer", f"a binding that names no layer is for {x[1]!r}", **w)
            for x in e.get(s, "kvp"):
                if x[1] != (dot + 1 if named else 0):
                    ctx.violation("key-text", f"the key and value of a binding of the form '{text}' are taken from character {x[1]}", **w)
                if named and not x[2]:
                    ctx.violation("layer-text", "the name of the layer is not separated from the key", **w)
            if r != 0:
                bad += 1
                if ch:
                    ctx.violation("half", f"a binding is refused after {ch[0][1]} has been changed", **w)
                if not e.get(s, "err") and not any(not x[2] for x in e.get(s, "pd")):
                    ctx.violation("silent", "a binding is refused without a message", **w)
            else:
                ok += 1
                if not any(x[2] for x in e.get(s, "pd")):
                    ctx.violation("unparsed", "a binding is accepted whose action was refused", **w)
                if e.get(s, "nolayer"):
                    ctx.violation("no-layer", "a binding for a layer that does not exist is accepted", **w)
                if not ch:
                    ctx.violation("lost", "a binding is accepted without changing anything", **w)
                kinds |= {x[1:3] if x[1] == "chord" else x[1] for x in ch}
                if any(x[1] == "chord" and x[2] == "new" for x in ch):
                    if {x[1] for x in e.get(s, "part")} != {"d", "keys", "sz"}:
                        ctx.violation("part", "a new chord is not stored as a whole", **w)
                    sl, cn = e.get(s, "slot"), e.get(s, "cnt")
                    if not cn or any(c13.nf1(x[1]) != c13.plus1(sl[0][1]) for x in cn):
                        ctx.violation("count", "a new chord is stored but not counted", **w)
                elif any(x[1] == "chord" and x[2] == "count" for x in ch):
                    ctx.violation("count", "the number of chords changes without a new chord", **w)
    ctx.need(ok and bad, "nothing is accepted, or nothing refused")
    for k in ("key", ("chord", "new"), ("chord", "again")):
        if k not in kinds:
            ctx.violation(f"never:{k}", f"no binding ever changes a {k if isinstance(k, str) else 'chord'}", where=(f.file, f.src))


# ---------------------------------------------------------------- finding a chord

class Chord(Seq):
    def setup(self, keys, chords):
        self.keys, self.chords, self.got = keys, chords, []
        self.L, self.K = Sym("layer", 64, NONNULL), Sym("keys", 64, NONNULL)
        return self

    def seed(self, s):
        a = self.fn.args
        s.env[a[0]], s.env[a[1]], s.env[a[2]] = ("v", self.L), ("v", self.K), len(self.keys)

    def at(self, a):
        """('k', offset) or ('c', chord, offset)"""
        if not isinstance(a, tuple):
            return None
        r, p = (a[1], a[2]) if a[0] == "a" else (a, ())
        if r == ("v", self.K):
            if not p:
                return "k", 0
            if len(p) == 1 and p[0][0] == "x" and isinstance(p[0][1], int):
                return "k", p[0][1]
        if r == ("v", self.L):
            i = c28.index_in(a, "chords")
            j = c28.index_in(a, "keys")
            if isinstance(i, int) and isinstance(j, int):
                return "c", i, j
        return None

    def bytes(self, x):
        if x is None:
            return None
        if x[0] == "k":
            return (self.keys + (77,) * 8)[x[1]:]
        return (self.chords[x[1]] + (99,) * 8)[x[2]:8] if x[1] < len(self.chords) else None

    def fresh_load(self, s, addr, ins):
        x = self.at(addr)
        if x and ins.ty.k == "int" and ins.ty.a == 8:
            b = self.bytes(x)
            if b:
                return b[0]
        f = c28.last(addr) if isinstance(addr, tuple) else None
        if f == "nr_chords":
            return len(self.chords)
        if f == "sz":
            i = c28.index_in(addr, "chords")
            if isinstance(i, int) and i < len(self.chords):
                return len(self.chords[i])
        return ("v", ins)

    def call_memchr(self, s, ins, args):
        b, c, n = self.bytes(self.at(args[0])), self.const(s, args[1]), self.const(s, args[2])
        if b is not None and c is not None and n is not None:
            self.put(s, ("force", ins, ("v", Sym("hit", 64, NONNULL)) if c in b[:n] else 0))

    def call_memcmp(self, s, ins, args):
        a, b, n = self.bytes(self.at(args[0])), self.bytes(self.at(args[1])), self.const(s, args[2])
        if a is not None and b is not None and n is not None:
            self.put(s, ("force", ins, 0 if a[:n] == b[:n] else 1))

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def lookups(ctx):
    m = ctx.mod
    f = m.fn("layer_lookup_chord")
    if f is None or len(f.args) != 3:
        ctx.undecide("finding a chord", "layer_lookup_chord not found")
        return
    g = inline(m, f, lambda c, ch: c.file == CFILE)
    ms = ModSets(m)
    combos = [c for n in (1, 2, 3) for c in itertools.product((1, 2, 3), repeat=n)]
    unk = set()
    for keys in combos:
        for have in combos:
            if len(keys) == 1 or len(have) == 3 and len(keys) == 3 and keys[0] > keys[1]:
                continue
            chords = (have, (1, 2, 3, 4))
            e = Chord(m, g, ms).setup(keys, chords)
            follow(e, g, m)
            e.run()
            ctx.count("chord_pairs")
            if len(e.got) != 1:
                unk.add("not a single path")
                continue
            (s, t), = e.got
            v = e.val(s, t.ops[0])
            i = c28.index_in(v, "chords") if isinstance(v, tuple) else None
            w = dict(where=m.loc(t), path=trace_str(s.trace))
            if v == 0:
                if sorted(keys) == sorted(have):
                    ctx.violation("chord-lost", f"the chord {have} is not found as {keys}", **w)
            elif i == 0:
                if set(keys) != set(have):
                    ctx.violation("chord-other", f"the chord {have} is taken for {keys}", **w)
            elif i == 1:
                ctx.violation("chord-other", f"the chord {chords[1]} is taken for {keys}", **w)
            else:
                unk.add("an unknown chord")
    for u in unk:
        ctx.undecide("finding a chord", u)


# ---------------------------------------------------------------- reporting

class Tell(Seq):
    """After a refusal, the message is passed on before the next binding. tags ('refused',) ('err',) ('told',)"""

    def setup(self, adders, typ=None):
        self.adders, self.typ, self.got = adders, typ, []
        return self

    def fresh_load(self, s, addr, ins):
        if self.typ is not None and isinstance(addr, tuple) and addr[0] == "a" and c28.last(addr) == "type" and addr[2][-1][1] == "ipc_message":
            return self.typ
        return ("v", ins)

    def call_snprintf(self, s, ins, args):
        if iserr(args):
            self.put(s, ("err",))

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is None:
            return
        if f in self.adders:
            if self.typ is None and self.get(s, "refused"):
                self.report(s, ins, "untold", "a refused binding of a configuration file is not reported")
            self.drop(s, lambda x: x[0] in ("refused", "told"))
            out = []
            for v in (0, -1):
                t = s.copy()
                self.put(t, ("force", ins, v), ("accepted",) if v == 0 else ("refused",))
                if v:
                    self.put(t, ("err",))
                out.append(t)
            return out
        if any(a == ERR for a in args[1:]) and any(isinstance(strarg(self.mod, a), str) and "%" in strarg(self.mod, a) for a in args):
            if self.typ is not None and not self.get(s, "err"):
                self.report(s, ins, "stale", "a client is told an error message that is not about its request")
            self.drop(s, lambda x: x[0] == "refused")
            self.put(s, ("told",))

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


class Eval(Seq):
    def setup(self):
        self.got = []
        return self

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is not None and f.src == "config_add_entry":
            if args[1] != ("v", self.fn.args[1]):
                self.report(s, ins, "eval-text", "a binding is changed on its way to the engine")
            out = []
            for v in (0, -1):
                t = s.copy()
                self.put(t, ("force", ins, v), ("res", v))
                out.append(t)
            return out
    after_inst = Tell.after_inst
    on_exit = Tell.on_exit


def reporting(ctx):
    m = ctx.mod
    add = ctx.need(m.fn("config_add_entry"), "config_add_entry not found")
    ev = m.fn("kbd_eval")
    ms = ModSets(m)
    for f, i in callers(m, "config_add_entry"):
        if ev is not None and f is ev:
            e = Eval(m, inline(m, f, lambda c, ch: c.file == KFILE), ms).setup()
            e.run()
            e.flush(ctx)
            for s, t in e.got:
                for x in e.get(s, "res"):
                    r = e.const(s, e.val(s, t.ops[0]))
                    if r is None:
                        ctx.undecide("kbd_eval", "its result is not known")
                    elif bool(r) != bool(x[1]):
                        ctx.violation("eval", "the result of a binding is not passed on", where=m.loc(t), path=trace_str(s.trace))
            continue
        roots = [f]
        for root in roots:
            e = Tell(m, inline(m, root, lambda c, ch: c.file == f.file and c is not add and "config_add_entry" in closure(m, c)), ms).setup({add})
            e.run()
            e.flush(ctx)
            ctx.count("reporters")
            for s, t in e.got:
                if e.get(s, "refused"):
                    ctx.violation("untold", "a refused binding of a configuration file is not reported", where=m.loc(t), path=trace_str(s.trace))
    if ev is None:
        ctx.undecide("bindings of clients", "kbd_eval not found")
        return
    B = m.enum("IPC_BIND")
    for f in {f.name: f for f, i in callers(m, ev.src)}.values():
        top = [h for h in m.fns.values() if h.file == f.file and "recv" in libcalls(m, h) and f.src in closure(m, h) and "recv" in
               {i.callee.name for i in h.insts() if i.op == "call" and isinstance(i.callee, GRef)}] or [f]
        for h in top:
            e = Tell(m, inline(m, h, lambda c, ch: c.file == f.file and ev.src in closure(m, c) and c is not ev), ms).setup({ev}, B)
            e.run()
            e.flush(ctx)
            ctx.count("reporters")


def run(ctx):
    ctx.rule("each refusal of an action sets a message", parser)
    ctx.rule("each refusal of a macro or command sets a message", callees)
    ctx.rule("parsing an action changes no key, chord or alias", effects)
    ctx.rule("a refused binding changes nothing, an accepted one only what it names", adding)
    ctx.rule("a chord is only taken for one with the same keys", lookups)
    ctx.rule("the message of a refusal is reported", reporting)
