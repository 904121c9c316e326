"""C21: key names and modifier notation. The key table is compared entry by entry (all names, alternative names and shifted characters distinct and writable
in a configuration); the functions that read and print key names and modifier letters are simulated over LLVM IR with everything they call inlined:
key sequences with every set of modifier letters and an unknown key name (compared with every entry of the table), modifier sets for layer headings,
printing of all 32 modifier sets, name lookup for the left hand side, the listing of keys, and the layers that stand for plain modifier keys."""
import itertools, re
from seq import *
from c20 import follow, canon

NONNULL = (1, 1 << 62, frozenset())
LETTERS = {"C": ("MOD_CTRL", "KEYD_LEFTCTRL"), "M": ("MOD_SUPER", "KEYD_LEFTMETA"), "A": ("MOD_ALT", "KEYD_LEFTALT"), "S": ("MOD_SHIFT", "KEYD_LEFTSHIFT"),
           "G": ("MOD_ALT_GR", "KEYD_RIGHTALT")}
ASSUMPTIONS = ["C library string functions behave as documented"]


def table(m):
    """[(name, alternative, shifted)] of the key table."""
    g = m.globals.get("keycode_table")
    if g is None or not g.const or not isinstance(g.init, Agg):
        raise IRError("keycode_table is no constant table")
    out = []
    for el in g.init.elems:
        if not isinstance(el, Agg):
            out.append((None, None, None))
            continue
        r = []
        for v in el.elems:
            b = m.cstr(v) if isinstance(v, (GRef, CExpr)) else None
            r.append(b.decode("latin1") if b is not None else None)
        out.append(tuple(r))
    return out


class Text(Seq):
    """One text argument: known leading characters, then its end or (rest=True) the name of an unknown key."""

    def setup(self, text, rest):
        self.text, self.rest = text, rest
        self.t = Sym("text", 64, NONNULL)
        self.code, self.mods = Sym("codep", 64, NONNULL), Sym("modsp", 64, NONNULL)
        self.got, self.unknown = [], set()
        return self

    def seed(self, s):
        out = [self.code, self.mods]
        n = 0
        ptrs = [a for a in self.fn.args if a.ty.k == "ptr"]
        s.env[ptrs[0]] = ("v", self.t)
        if len(ptrs) == 2:
            s.env[ptrs[1]] = ("v", self.mods)
        elif len(ptrs) > 2:
            s.env[ptrs[1]], s.env[ptrs[2]] = ("v", self.code), ("v", self.mods)

    def off(self, a):
        a = canon(a)
        if not isinstance(a, tuple):
            return None
        if a == ("v", self.t):
            return 0
        if a[0] == "a" and a[1] == ("v", self.t):
            o = 0
            for e in a[2]:
                if e[0] != "x" or not isinstance(e[1], int) or o is None:
                    return -1
                o += e[1]
            return o
        return None

    def fresh_load(self, s, addr, ins):
        a = addr if addr[0] == "v" else addr[1] if addr[0] == "a" and not addr[2] else None
        for p in (self.code, self.mods):
            if a == ("v", p) and self.outval(s, p) is not None:
                return self.outval(s, p)
        o = self.off(addr)
        if o is None:
            return ("v", ins)
        n = len(self.text)
        if 0 <= o < n:
            return ord(self.text[o])
        if not self.rest:
            if o > n or o < 0:
                self.report(s, ins, "beyond", "the text is read beyond its end")
            return 0
        if o == n:
            self.rest1 = ("v", Sym("rest0", 8, (1, 255, frozenset())))
            return self.rest1
        if o == n + 1:
            return ("v", Sym("rest1", 8, (0, 255, frozenset([ord("-")]))))
        self.unknown.add("the key name is read character by character")
        return ("v", ins)

    def pair(self, args):
        for a, b in (args[:2], args[1::-1]):
            o = self.off(a)
            l = strarg(self.mod, b)
            if o is not None and l is not None:
                return o, l
        return None, None

    def call_strcmp(self, s, ins, args):
        o, l = self.pair(args)
        if o is None:
            if any(self.off(a) is not None for a in args[:2]):
                self.unknown.add("the text is compared with something unknown")
            return
        if not self.rest or o < len(self.text):
            t = self.text[o:]
            if not self.rest or l[:len(t)] != t:
                self.put(s, ("force", ins, 0 if t == l and not self.rest else 1))
                return
        hit = {x[1] for x in self.get(s, "hit")}
        miss = next(iter(x[1] for x in self.get(s, "miss")), frozenset())
        if o != len(self.text):
            self.report(s, ins, "place", f"the key name is looked for at the wrong place of the text (after {self.text[:o]!r} instead of {self.text!r})")
        out = []
        for v in ((0,) if l in hit else (1,) if hit or l in miss else (0, 1)):
            t = s.copy()
            self.put(t, ("force", ins, v))
            if v == 0:
                self.put(t, ("hit", l))
            elif l not in miss:
                self.drop(t, lambda x: x[0] == "miss")
                self.put(t, ("miss", miss | {l}))
            out.append(t)
        return out

    def other(self, s, ins, args, n):
        if any(self.off(a) is not None for a in args):
            self.unknown.add(f"{n} on the text")
    call_strncmp = call_memcmp = call_strchr = call_strtok = lambda self, s, ins, args: self.other(s, ins, args, self.callname(ins))

    def call_strcasecmp(self, s, ins, args):
        self.report(s, ins, "case", "key names are compared without regard to case, so that a letter and its shifted character are the same")

    def call_strlen(self, s, ins, args):
        o = self.off(args[0])
        if o is not None and o >= 0:
            if self.rest:
                self.unknown.add("the length of the text")
            else:
                self.put(s, ("force", ins, len(self.text) - o))

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)

    def on_store(self, s, ins, addr, v):
        a = addr if addr[0] == "v" else addr[1] if addr[0] == "a" and not addr[2] else None
        for p in (self.code, self.mods):
            if a == ("v", p):
                self.drop(s, lambda x: x[0] == "out" and x[1] is p)
                self.put(s, ("out", p, v))

    def outval(self, s, p):
        return next((x[2] for x in self.get(s, "out") if x[1] is p), None)

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def sim(ctx, g, ms, text, rest, cls=Text):
    e = cls(ctx.mod, g, ms).setup(text, rest)
    follow(e, g, ctx.mod)
    e.run()
    ctx.count("texts")
    e.flush(ctx)
    return e


def undecided(ctx, e, what):
    for u in e.unknown:
        ctx.undecide(what, u)
    return bool(e.unknown)


def names(ctx):
    m = ctx.mod
    seen = {}
    t = table(m)
    ctx.need(len(t) == 256, "the key table has not 256 entries")
    for i, (n, a, sh) in enumerate(t):
        for kind, x in (("name", n), ("alternative name", a), ("shifted character", sh)):
            if x is None:
                continue
            ctx.count("names")
            if x in seen:
                j, k2 = seen[x]
                ctx.violation(f"twice:{x}", f"'{x}' is the {kind} of key {i} and the {k2} of key {j}")
            seen[x] = (i, kind)
            if not x or re.search(r"[\s\x00-\x1f]", x):
                ctx.violation(f"unwritable:{i}", f"the {kind} '{x}' of key {i} cannot be written in a configuration")
            elif x[1:2] == "-":
                ctx.violation(f"unwritable:{i}", f"the {kind} '{x}' of key {i} reads as a modifier prefix")
            if kind == "shifted character" and len(x) != 1:
                ctx.violation(f"shifted:{i}", f"the shifted character '{x}' of key {i} is no single character")
        if not n and (a or sh):
            ctx.violation(f"unnamed:{i}", f"key {i} has an alternative name or shifted character but no name: it is never found")
    if any(t[0]):
        ctx.violation("zero", f"key code 0, which means no key, is called '{t[0][0]}'")


def bits(ctx):
    m = ctx.mod
    b = {l: m.macro(x[0]) for l, x in LETTERS.items()}
    for l, v in b.items():
        if not v or v & (v - 1) or v > 255 or list(b.values()).count(v) != 1:
            ctx.violation(f"bit:{l}", f"modifier {l} has no bit of its own ({v:#x})")
    g = m.globals.get("modifiers")
    ctx.need(g is not None and g.const and isinstance(g.init, Agg), "the modifier table is no constant table")
    tab = [tuple(x.v if isinstance(x, Const) else 0 for x in el.elems) if isinstance(el, Agg) else (0, 0) for el in g.init.elems]
    for l, (mn, kn) in LETTERS.items():
        ks = [k for mk, k in tab if mk == b[l]]
        ctx.count("modifiers")
        if ks != [m.macro(kn)]:
            ctx.violation(f"modkey:{l}", f"modifier {l} is produced by the keys {ks} instead of key {m.macro(kn)} only")
    for mk, k in tab:
        if mk not in b.values():
            ctx.violation(f"modmask:{mk}", f"key {k} stands for {mk:#x}, which is none of the five modifiers")
    return b


def prefixes():
    for n in range(6):
        for c in itertools.combinations("CMASG", n):
            yield "".join(x + "-" for x in c), set(c)
    yield "G-S-A-M-C-", set("CMASG")
    yield "C-C-", {"C"}


def sequence(ctx, items):
    m = ctx.mod
    f = m.fn("parse_key_sequence")
    g = inline(m, f, lambda c, ch: True)
    ms = ModSets(m)
    b = {l: m.macro(x[0]) for l, x in LETTERS.items()}
    where = {}
    for i, ent in enumerate(table(m)):
        for k, x in enumerate(ent):
            if x is not None:
                where.setdefault(x, (i, k))
    for text, letters in items:
        if letters is None:
            e = sim(ctx, g, ms, text, True)
            if undecided(ctx, e, "key sequences"):
                return
            for s, t in e.got:
                if e.const(s, e.val(s, t.ops[0])) == 0:
                    ctx.violation(f"prefix:{text[-2]}", f"'{text}' is accepted in front of a key name", m.loc(t), trace_str(s.trace))
            continue
        base = sum(b[x] for x in letters)
        e = sim(ctx, g, ms, text, True)
        if undecided(ctx, e, "key sequences"):
            return
        found = set()
        for s, t in e.got:
            ctx.count("sequence_paths")
            r = e.const(s, e.val(s, t.ops[0]))
            hit = [x[1] for x in e.get(s, "hit")]
            path = dict(where=m.loc(t), path=trace_str(s.trace))
            if r != 0:
                if r is None or e.nonneg(s, e.val(s, t.ops[0])):
                    ctx.undecide("key sequences", "an unknown result")
                    continue
                if hit:
                    ctx.violation(f"rejected:{hit[0]}", f"'{text}{hit[0]}' is rejected", **path)
                else:
                    miss = next(iter(x[1] for x in e.get(s, "miss")), frozenset())
                    gone = set(where) - miss
                    if gone:
                        ctx.violation("unsearched", f"a key name is rejected without having been compared with {sorted(gone)[:4]}", **path)
                continue
            if not hit:
                ctx.violation("nothing", f"'{text}' followed by any text is accepted as a key", **path)
                continue
            h = hit[0]
            found.add(h)
            code, mods = [e.outval(s, p) for p in (e.code, e.mods)]
            code, mods = [None if x is None else e.const(s, x) for x in (code, mods)]
            if h not in where:
                ctx.violation(f"unlisted:{h}", f"'{h}', which is not in the key table, is taken for key {code}", **path)
                continue
            i, k = where[h]
            if code != i:
                ctx.violation(f"code:{h}", f"'{h}' is taken for key {code} instead of {i}", **path)
            want = base | (b["S"] if k == 2 else 0)
            if mods != want:
                ctx.violation(f"mods:{text}:{('name', 'name', 'shifted')[k]}", f"'{text}{h}' has modifiers {mods} instead of {want:#x}", **path)
        for x in sorted(set(where) - found):
            ctx.violation(f"unreachable:{x}", f"'{text}{x}' is never recognised as a key", where=(f.file, f.src))


def sequences(ctx):
    m = ctx.mod
    f = ctx.need(m.fn("parse_key_sequence"), "parse_key_sequence not found")
    ctx.need(len(f.args) == 3, "parse_key_sequence takes other arguments")
    items = list(prefixes()) + [(chr(c) + "-", None) for c in range(1, 127) if chr(c) not in LETTERS]
    n = 16
    ctx.pmap(sequence, [items[i::n] for i in range(n)])


def modset(ctx):
    m = ctx.mod
    f = ctx.need(m.fn("parse_modset"), "parse_modset not found")
    ctx.need(len(f.args) == 2, "parse_modset takes other arguments")
    g = inline(m, f, lambda c, ch: True)
    ms = ModSets(m)
    b = {l: m.macro(x[0]) for l, x in LETTERS.items()}
    good = ["-".join(c) for n in range(1, 6) for c in itertools.permutations("CMASG", n)][:400] + ["G-S-A-M-C", "C-C"]
    bad = [chr(c) for c in range(1, 127) if chr(c) not in LETTERS] + ["CA", "C+A", "C-a", "C-x", "SG", "C--A", "C A"]
    for text in good + bad:
        e = sim(ctx, g, ms, text, False)
        if undecided(ctx, e, "modifier sets"):
            return
        for s, t in e.got:
            r = e.const(s, e.val(s, t.ops[0]))
            v = e.outval(s, e.mods)
            v = None if v is None else e.const(s, v)
            path = dict(where=m.loc(t), path=trace_str(s.trace))
            if text in bad:
                if r == 0:
                    ctx.violation(f"modset:{text}", f"'{text}' is accepted as a set of modifiers ({v})", **path)
                continue
            want = 0
            for x in text.split("-"):
                want |= b[x]
            if r != 0:
                ctx.violation(f"modset:{text}", f"'{text}' is not accepted as a set of modifiers", **path)
            elif v != want:
                ctx.violation(f"modset:{text}", f"'{text}' means {v} instead of {want:#x}", **path)


class Mods(Seq):
    def setup(self, v):
        self.v, self.got = v, []
        return self

    def seed(self, s):
        s.env[self.fn.args[0]] = self.v

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def modstr(ctx):
    m = ctx.mod
    f = ctx.need(m.fn("modstring"), "modstring not found")
    g = inline(m, f, lambda c, ch: True)
    ms = ModSets(m)
    b = {l: m.macro(x[0]) for l, x in LETTERS.items()}
    for v in range(32):
        letters = {l for l in b if b[l] & v}
        e = Mods(m, g, ms).setup(v)
        follow(e, g, m)
        e.run()
        ctx.count("modifier_sets_printed")
        for s, t in e.got:
            r = e.val(s, t.ops[0])
            out = strarg(m, r)
            if out is None and isinstance(r, tuple) and r[0] == "a":
                out = ""
                for i in range(32):
                    p = r[2]
                    if p and p[-1][0] == "x" and isinstance(p[-1][1], int):
                        p, i = p[:-1], p[-1][1] + i
                    c = peek(e, s, ("a", r[1], p + (("x", i),) if i else p), 1)
                    if c is None and not i:
                        c = peek(e, s, ("a", r[1], p + (("x", 0),)), 1)
                    c = None if c is None else e.const(s, c)
                    if c is None:
                        out = None
                        break
                    if c == 0:
                        break
                    out += chr(c)
            if out is None:
                ctx.undecide("printing of modifiers", "the text is not known")
                return
            got = out.split("-") if out else []
            if set(got) != letters or len(got) != len(letters):
                ctx.violation(f"printed:{v}", f"the modifiers {sorted(letters)} are printed as '{out}'", m.loc(t), trace_str(s.trace))


def lookup(ctx):
    m = ctx.mod
    f = m.fn("lookup_keycode")
    if f is None:
        c = [x for x in m.fns.values() if x.file == "src/config.c" and len(x.args) == 1 and x.args[0].ty.k == "ptr" and x.ret.k == "int"
             and any(isinstance(o, GRef) and o.name == "keycode_table" for i in x.insts() for o in map(strip, i.ops))]
        f = c[0] if len(c) == 1 else None
    if f is None or len(f.args) != 1:
        ctx.undecide("key names on the left hand side", "the lookup function was not found")
        return
    g = inline(m, f, lambda c, ch: True)
    e = sim(ctx, g, ModSets(m), "", True)
    if undecided(ctx, e, "key names on the left hand side"):
        return
    t0 = table(m)
    where = {}
    for i, ent in enumerate(t0):
        for x in ent[:2]:
            if x is not None:
                where.setdefault(x, i)
    found = set()
    for s, t in e.got:
        ctx.count("lookup_paths")
        r = e.const(s, e.val(s, t.ops[0]))
        hit = [x[1] for x in e.get(s, "hit")]
        path = dict(where=m.loc(t), path=trace_str(s.trace))
        if r is None:
            ctx.undecide("key names on the left hand side", "an unknown result")
        elif r == 0:
            if hit and hit[0] in where:
                ctx.violation(f"lhs:{hit[0]}", f"the key name '{hit[0]}' is not found on the left hand side", **path)
        elif not hit:
            ctx.violation("lhs-any", f"any text is taken for key {r}", **path)
        elif hit[0] in where:
            found.add(hit[0])
            if where[hit[0]] != r:
                ctx.violation(f"lhs:{hit[0]}", f"the key name '{hit[0]}' is taken for key {r} instead of {where[hit[0]]}", **path)
        elif (t0[r][2] if 0 <= r < 256 else None) != hit[0]:
            ctx.violation(f"lhs:{hit[0]}", f"the text '{hit[0]}' is taken for key {r}", **path)
    for x in sorted(set(where) - found):
        ctx.violation(f"lhs:{x}", f"the key name '{x}' is never found on the left hand side", where=(f.file, f.src))


class Print(Seq):
    def setup(self):
        self.out, self.unknown = [], set()
        return self

    def call_printf(self, s, ins, args):
        fmt = strarg(self.mod, args[0])
        if fmt is None:
            self.unknown.add("an unknown format")
            return
        n = iter(args[1:])
        t = ""
        for p in re.split(r"(%.)", fmt):
            if p == "%s":
                x = strarg(self.mod, next(n))
                if x is None:
                    self.unknown.add("an unknown text is printed")
                t += x or ""
            elif p[:1] == "%":
                self.unknown.add("format " + p)
            else:
                t += p
        self.out.append((t, ins))

    def call_puts(self, s, ins, args):
        x = strarg(self.mod, args[0])
        if x is None:
            self.unknown.add("an unknown text is printed")
        else:
            self.out.append((x + "\n", ins))

    def call_fputs(self, s, ins, args):
        self.unknown.add("fputs")
    call_putchar = call_fprintf = call_fwrite = call_fputs


def listing(ctx):
    m = ctx.mod
    f = m.fn("list_keys")
    if f is None:
        ctx.undecide("list-keys", "not found")
        return
    g = inline(m, f, lambda c, ch: True)
    e = Print(m, g, ModSets(m)).setup()
    follow(e, g, m)
    e.run()
    for u in e.unknown:
        ctx.undecide("list-keys", u)
        return
    lines = "".join(t for t, _ in e.out).split("\n")[:-1]
    ctx.count("lines_listed", len(lines))
    want = [x for ent in table(m) for x in ent if x is not None]
    for x in sorted(set(want) - set(lines)):
        ctx.violation(f"unlisted:{x}", f"'{x}' is accepted as a key but not listed", where=(f.file, f.src))
    for x in sorted(set(lines) - set(want)):
        ctx.violation(f"listed:{x}", f"'{x}' is listed but is no key", where=(f.file, f.src))


class Plain(Seq):
    """A key assigned directly: the first layer looked up."""

    def setup(self, code):
        self.code, self.layers = code, []
        return self

    def call_parse_key_sequence(self, s, ins, args):
        t = s.copy()
        self._out = args[1]
        self.put(t, ("force", ins, 0), ("code", args[1]))
        return [t]

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)
        for x in self.get(s, "code"):
            a = x[1] if x[1][0] == "a" else ("a", x[1], ())
            for k in [k for k in s.mem if k[0] == a]:
                del s.mem[k]
            s.mem[(a, 1)] = self.code
            self.drop(s, lambda y: y == x)
            self.put(s, ("done",))

    def call_config_get_layer_index(self, s, ins, args):
        if self.get(s, "done"):
            self.layers.append((strarg(self.mod, args[1]), ins))
        return False

    def call_parse_command(self, s, ins, args):
        return False if self.get(s, "done") else None

    def on_exit(self, s, t):
        if t.op == "ret" and self.get(s, "done"):
            self.layers.append((None, t))


def default_config(m):
    for g in m.globals.values():
        if isinstance(g.init, Str) and b"[main:layout]" in g.init.b:
            return g.init.b.split(b"\0")[0].decode()
    return None


def layers(ctx):
    m = ctx.mod
    b = {l: m.macro(x[0]) for l, x in LETTERS.items()}
    text = ctx.need(default_config(m), "the built-in configuration was not found")
    sec, alias, main, heads = None, {}, {}, {}
    for line in text.split("\n"):
        r = re.match(r"\[(.*)\]$", line.strip())
        if r:
            sec = r.group(1).split(":")[0]
            if ":" in r.group(1) and sec != "main":
                heads[sec] = r.group(1).split(":")[1]
        elif "=" in line:
            k, v = [x.strip() for x in line.split("=", 1)]
            {"aliases": alias, "main": main}.get(sec, {})[k] = v
    byname = {}
    for i, ent in enumerate(table(m)):
        for x in ent[:2]:
            if x:
                byname[x] = i
    layerof = {}
    for l, (mn, kn) in LETTERS.items():
        key = m.macro(kn)
        al = [v for k, v in alias.items() if byname.get(k) == key]
        ctx.count("modifier_layers")
        if len(al) != 1:
            ctx.violation(f"alias:{l}", f"the key of modifier {l} has the built-in aliases {al}")
            continue
        la = al[0]
        layerof[l] = la
        if heads.get(la) != l:
            ctx.violation(f"layer:{l}", f"the built-in layer '{la}' of the key of modifier {l} has the modifiers {heads.get(la)}")
        if main.get(la) != f"layer({la})":
            ctx.violation(f"main:{l}", f"the modifier key alias '{la}' does {main.get(la)} by default")
    for h, x in heads.items():
        if set(x.split("-")) - set(LETTERS):
            ctx.violation(f"head:{h}", f"the built-in layer '{h}' has the unknown modifiers '{x}'")
    for k in alias:
        if k not in byname:
            ctx.violation(f"alias-key:{k}", f"the built-in alias '{alias[k]}' refers to '{k}', which is no key")
        elif alias[k] not in layerof.values():
            ctx.violation(f"alias-name:{k}", f"'{k}' has the built-in alias '{alias[k]}', which is no modifier layer")
        else:
            # both keys of a pair stand for the same modifier
            pass
    f = m.fn("parse_descriptor")
    if f is None:
        ctx.undecide("plain modifier keys", "parse_descriptor not found")
        return
    want = {m.macro(LETTERS[l][1]): la for l, la in layerof.items()}
    g = inline(m, f, lambda c, ch: c.src not in ("config_get_layer_index", "parse_key_sequence", "parse_command") and c.file == f.file
               and not {"parse_command", "malloc", "fopen", "config_add_entry"} & (closure(m, c) | libcalls(m, c)))
    ms = ModSets(m)
    n = 0
    for code in range(1, 256):
        e = Plain(m, g, ms).setup(code)
        e.run()
        ctx.count("plain_keys")
        for la, i in e.layers:
            n += la is not None
            if la != want.get(code):
                ctx.violation(f"plain:{code}", f"key {code} assigned directly stands for {'layer ' + la if la else 'no layer'} instead of "
                              + (f"layer {want[code]}" if code in want else "the key itself"), m.loc(i))


def run(ctx):
    ctx.rule("each name in the key table denotes one key and can be written", names)
    ctx.rule("each modifier has one bit and is produced by one key", bits)
    ctx.rule("key sequences: every name is found, with its code and the modifiers written", sequences)
    ctx.rule("modifier sets mean the sum of their letters", modset)
    ctx.rule("modifiers are printed with the letters they are written with", modstr)
    ctx.rule("names on the left hand side denote the same keys", lookup)
    ctx.rule("list-keys lists exactly the names accepted", listing)
    ctx.rule("modifier keys stand for the layer with their modifier", layers)
