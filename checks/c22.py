"""C22: Unicode. The table of characters is read from the constant in unicode.c, the compose file is parsed. The lookup function is analysed
path-sensitively: an index is returned only where the entry at that index equals the character, and "none" only after all entries. The sequence
function yields, symbolically in the index, an expression for each emitted key; evaluated for every index it must be exactly the sequence the
compose file gives that entry's character. The UTF-8 decoder's expressions are evaluated for every character of the table. Macro parsing, macro
execution and text injection are followed from the decoded character to the four keys (each pressed and released, in order), including the width of
the field that carries the index."""
import os, re
from seq import *
from c20 import name

ASSUMPTIONS = ["under the reference layout a key named by a letter or digit produces the keysym of that name"]


class Unknown(Exception):
    pass


def ev(m, av, env):
    """Value of an abstract expression for given token values."""
    if isinstance(av, int):
        return av
    if av in env:
        return env[av]
    k = av[0]
    if k == "+":
        return ev(m, av[1], env) + av[2]
    if k == "tr":
        return ev(m, av[1], env) & ((1 << av[2]) - 1)
    if k == "sx":
        x = ev(m, av[1], env) & ((1 << av[2]) - 1)
        return x - (1 << av[2]) if x >> (av[2] - 1) else x
    if k == "fld":
        src = av[1][2] if av[1][0] == "agg" and len(av[1]) > 2 else None
        if isinstance(src, tuple) and src[0] == "a" and src[1][0] == "g":
            return tbl(m, src[1][1], [e[1] for e in src[2] + av[2] if e[0] == "x"], env)
        raise Unknown(str(av)[:80])
    if k == "op":
        if av[1] == "tbl":
            return tbl(m, av[2], list(av[3]), env)
        a, b = ev(m, av[2], env), ev(m, av[3], env)
        try:
            return {"mul": lambda: a * b, "add": lambda: a + b, "sub": lambda: a - b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
                    "shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: a >> b, "sdiv": lambda: tdiv(a, b), "udiv": lambda: a // b,
                    "srem": lambda: a - tdiv(a, b) * b, "urem": lambda: a % b}[av[1]]()
        except (KeyError, ZeroDivisionError, ValueError):
            raise Unknown(str(av)[:80])
    raise Unknown(str(av)[:80])


def tbl(m, g, idx, env):
    e = m.globals[g].init
    i = ev(m, idx[0], env) if idx else 0
    vals = list(e.b) if isinstance(e, Str) else [x.v if isinstance(x, Const) else 0 for x in e.elems]
    if not 0 <= i < len(vals):
        raise Unknown(f"index {i} outside {g}")
    return vals[i] & 0xff


def table(ctx):
    m = ctx.mod
    g = ctx.need(m.globals.get("unicode_table"), "unicode_table not found")
    ctx.need(g.init is not None and isinstance(g.init, Agg), "unicode_table is no constant table")
    return [x.v & 0xffffffff for x in g.init.elems]


# ---- the lookup ----

class Lookup(Seq):
    def on_branch(self, s, t, c, want):
        for x in (("v", p) for p in self.idx):
            if self.rng(s, x)[0] >= self.n:
                self.put(s, ("done",))

    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            if isinstance(a, tuple) and a[0] == "a" and a[1] == ("g", "unicode_table"):
                i = a[2][-1][1] if a[2] and a[2][-1][0] == "x" else 0
                self.put(s, ("ent", s.env[ins], i))

    def on_exit(self, s, t):
        if t.op != "ret":
            return
        v = self.val(s, t.ops[0])
        self.exits.append((s, t))
        if self.const(s, v) == -1 or (not isinstance(v, int) and self.rng(s, v)[1] < 0):
            self.neg_exit = True
            if not self.get(s, "done"):
                self.report(s, t, "missed", "a character is given up before all entries were compared")
            return
        hit = False
        for x in self.get(s, "ent"):
            if x[1] == ("v", self.fn.args[0]) or self.decide(s, "eq", x[1], ("v", self.fn.args[0])):
                tok = x[2]
                while isinstance(tok, tuple) and tok[0] in ("+", "sx", "tr"):
                    tok = tok[1]
                try:
                    ok = v == x[2] or (isinstance(tok, tuple) and all(ev(self.mod, v, {tok: k}) == ev(self.mod, x[2], {tok: k}) for k in (0, 127, 128, 255, 256, 32767, 32768, self.n - 1)))
                except Unknown:
                    ok = False
                hit |= ok
        if not hit:
            self.report(s, t, "wrong-index", "an index is returned whose entry was not found equal to the character")


def lookup(ctx, T):
    m = ctx.mod
    f = ctx.need(m.fn("unicode_lookup_index"), "unicode_lookup_index not found")
    g = inline(m, f, lambda c, ch: True)
    e = Lookup(m, g, ModSets(m))
    e.n, e.neg_exit = len(T), False
    cfg = CFG(g)
    cnt = [(h, c) for h in cfg.loops for c in cfg.counted(h)]
    e.idx = [c[0] for h, c in cnt]
    e.run()
    linear = [c for h, c in cnt if c[2] == 1]
    if len(cfg.loops) == 1 and linear:
        if not any(isinstance(c[1], Const) and c[1].v == 0 for c in linear):
            ctx.violation("start", "the search does not begin with the first entry", where=m.loc(linear[0][0]))
    else:
        ctx.undecide("completeness of the lookup", "no linear search")
        e.bad = [b for b in e.bad if b[0] != "missed"]
    e.flush(ctx)
    ctx.count("lookup_exits", len(e.exits))
    ctx.need(e.exits, "the lookup never returns")


# ---- the sequence ----

class Sequence(Seq):
    def fresh_load(self, s, addr, ins):
        if isinstance(addr, tuple) and addr[0] == "a" and addr[1][0] == "g" and addr[2] and addr[2][-1][0] == "x":
            g = self.mod.globals.get(addr[1][1])
            if g is not None and g.init is not None and isinstance(g.init, (Agg, Str)) and ins.ty.a == 8:
                return ("op", "tbl", addr[1][1], (addr[2][-1][1],))

    def on_store(self, s, ins, addr, v):
        a = self._adr(addr)
        r, p = (a[1], a[2]) if isinstance(a, tuple) and a[0] == "a" else (a, ())
        if r == ("v", self.fn.args[1]):
            k = p[-1][1] if p and p[-1][0] == "x" else 0
            self.drop(s, lambda x: x[0] == "code" and x[1] == k)
            self.put(s, ("code", k, v))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.exits.append((s, t))


def composefile(ctx):
    p = os.path.join(ctx.repo, "data/keyd.compose")
    ctx.need(os.path.exists(p), "data/keyd.compose not found")
    out, dup = {}, []
    for n, l in enumerate(open(p, encoding="utf8", newline="\n"), 1):
        r = re.match(r'((?:<[^>]+>\s*)+):\s*"((?:[^"\\]|\\.)*)"', l)
        if not r:
            if l.strip() and not l.startswith("#"):
                ctx.violation(f"compose-line", f"data/keyd.compose line {n} is no compose line: {l[:40]!r}")
            continue
        seq = tuple(re.findall(r"<([^>]+)>", r.group(1)))
        ch = r.group(2)
        if seq in out:
            ctx.violation("compose-dup", f"data/keyd.compose gives the sequence {' '.join(seq)} twice (line {n})")
        out[seq] = (ch, n)
    return out


def sequence(ctx, T):
    m = ctx.mod
    f = ctx.need(m.fn("unicode_get_sequence"), "unicode_get_sequence not found")
    g = inline(m, f, lambda c, ch: True)
    e = Sequence(m, g, ModSets(m))
    e.unroll(CFG(g), 8)
    e.run()
    ctx.need(e.exits, "unicode_get_sequence never returns")
    comp = composefile(ctx)
    ctx.count("compose_lines", len(comp))
    idx = ("v", g.args[0])
    prefixes = {s[:k] for s in comp for k in range(1, len(s))}
    if any(s in prefixes for s in comp):
        ctx.violation("compose-prefix", "a compose sequence is the beginning of another one")
    for s, t in e.exits:
        code = {x[1]: x[2] for x in e.get(s, "code")}
        for k in range(4):
            if k not in code:
                ctx.violation("unset", f"key {k} of a sequence is not set", where=m.loc(t))
                return
        seen = {}
        for i, cp in enumerate(T):
            try:
                ks = tuple(ev(m, code[k], {idx: i}) & 0xff for k in range(4))
            except Unknown as u:
                if "outside" in str(u):
                    ctx.violation("outside", f"the sequence of entry {i} (U+{cp:04X}) reads outside the key table: {u}", where=m.loc(t))
                else:
                    ctx.undecide("sequence expression", str(u))
                return
            names = tuple({"cancel": "Cancel"}.get(name(m, k), name(m, k)) for k in ks)
            ctx.count("sequences")
            if ks in seen:
                ctx.violation("ambiguous", f"U+{T[seen[ks]]:04X} and U+{cp:04X} are emitted as the same keys {names}", where=m.loc(t))
                break
            seen[ks] = i
            c = comp.get(names)
            if c is None or c[0] != chr(cp):
                ctx.violation("compose", f"entry {i} (U+{cp:04X}) is emitted as {names}, which the compose file gives to {('U+%04X' % ord(c[0]) if len(c[0]) == 1 else repr(c[0])) if c else 'nothing'}", where=m.loc(t))
                break
    ctx.sample(f"{len(T)} entries compared with {len(comp)} compose lines")


def distinct(ctx, T):
    seen = {}
    for i, cp in enumerate(T):
        ctx.count("characters")
        if cp in seen:
            ctx.violation("table-dup", f"U+{cp:04X} is in the table twice (entries {seen[cp]} and {i})")
            return
        seen[cp] = i
        if cp < 128 or cp > 0x10ffff or 0xd800 <= cp < 0xe000:
            ctx.violation("table-range", f"table entry {i} ({cp:#x}) is no character that needs a sequence")
            return


# ---- decoding ----

class Decode(Seq):
    def fresh_load(self, s, addr, ins):
        r, p = (addr[1], addr[2]) if addr[0] == "a" else (addr, ())
        if r == ("v", self.fn.args[0]):
            k = p[-1][1] if p and p[-1][0] == "x" else 0
            if isinstance(k, int):
                return ("v", self.bytes.setdefault(k, Sym(f"byte{k}", 8)))

    def on_branch(self, s, t, c, want):
        for k, b in self.bytes.items():
            if ("v", b) in s.facts:
                l, h, e = s.facts[("v", b)]
                for x in self.get(s, "rg"):
                    if x[1] == k:
                        l, h, e = max(l, x[2]), min(h, x[3]), e | x[4]
                self.drop(s, lambda x: x[0] == "rg" and x[1] == k)
                self.put(s, ("rg", k, l, h, e))

    def bounds(self, s, k):
        for x in self.get(s, "rg"):
            if x[1] == k:
                return x[2:]
        return (0, 255, frozenset())

    def on_store(self, s, ins, addr, v):
        a = self._adr(addr)
        if a == ("v", self.fn.args[1]) or (isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", self.fn.args[1])):
            self.drop(s, lambda x: x[0] == "cp")
            self.put(s, ("cp", v))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.exits.append((s, t))


def decode(ctx, T):
    m = ctx.mod
    f = ctx.need(m.fn("utf8_read_char"), "utf8_read_char not found")
    g = inline(m, f, lambda c, ch: True)
    e = Decode(m, g, ModSets(m))
    e.bytes = {}
    e.unroll(CFG(g), 8)
    e.run()
    ps = []
    for s, t in e.exits:
        r = e.const(s, e.val(s, t.ops[0]))
        ps.append((r, [x[1] for x in e.get(s, "cp")], {k: e.bounds(s, k) for k, b in e.bytes.items()}, s, t))
    if any(p[0] is None for p in ps):
        ctx.undecide("UTF-8 decoding", "length is no constant on a path")
        return
    for cp in T:
        bs = chr(cp).encode("utf8")
        env = {("v", b): (bs[k] if k < len(bs) else 0) for k, b in e.bytes.items()}
        fit = []
        for r, cps, rg, s, t in ps:
            if all(rg[k][0] <= v <= rg[k][1] and v not in rg[k][2] for k, v in ((k, env[("v", b)]) for k, b in e.bytes.items() if k < len(bs))):
                fit.append((r, cps, s, t))
        ctx.count("decoded")
        if not fit:
            ctx.undecide("UTF-8 decoding", f"no path for U+{cp:04X}")
            return
        for r, cps, s, t in fit:
            try:
                v = ev(m, cps[0], env) & 0xffffffff if cps else None
            except Unknown as u:
                ctx.undecide("UTF-8 decoding", str(u))
                return
            if r != len(bs) or v != cp:
                ctx.violation("decode", f"the UTF-8 text of U+{cp:04X} is read as " + (f"U+{v:04X}" if v is not None else "nothing") + f" with length {r} instead of {len(bs)}", where=m.loc(t), path=trace_str(s.trace))
                return


# ---- from the character to the keys ----

class Use(Seq):
    """One function that turns decoded characters into entries or keys."""

    def setup(self, last, emit, indirect):
        self.last, self.emit, self.indirect = last, emit, indirect
        self.seen, self.args, self.stored = set(), [], []
        return self

    def root_of(self, a):
        return (a[1] if a[0] == "a" else a) if isinstance(a, tuple) else None

    # decode
    def call_utf8_read_char(self, s, ins, args):
        self.settle(s, ins)
        self.drop(s, lambda x: x[0] in ("csz", "cp", "cpv", "looked", "single"))
        self.put(s, ("csz", ("v", ins)), ("cp", self.root_of(args[1])))

    def on_branch(self, s, t, c, want):
        for x in self.get(s, "csz"):
            if self.rng(s, x[1])[1] <= 1:
                self.put(s, ("single",))
        for x in self.get(s, "cpv"):
            l, h, e = self.rng(s, x[1])
            if 0 <= l and h < 128:
                self.put(s, ("single",))
        for x in self.get(s, "res"):
            if self.rng(s, x[1])[1] < 0:
                self.put(s, ("neg",))

    def settle(self, s, ins):
        """The previous character is finished with."""
        self.emitted(s, ins)
        if self.get(s, "csz") and not self.get(s, "single") and not self.get(s, "looked") and "lookup" in self.want:
            self.report(s, ins, "not-looked-up", "a character of several bytes is skipped without being looked up")
        if self.get(s, "res") and not self.get(s, "used") and not self.get(s, "neg"):
            self.report(s, ins, "not-used", "a character found in the table is dropped")
        self.drop(s, lambda x: x[0] in ("res", "used", "neg"))

    def call_unicode_lookup_index(self, s, ins, args):
        self.seen.add("lookup")
        ok = any(args[0] == x[1] for x in self.get(s, "cpv"))
        if not ok and self.get(s, "cp"):
            self.report(s, ins, "other-character", "something else than the decoded character is looked up")
        self.drop(s, lambda x: x[0] in ("res", "used", "neg"))
        self.put(s, ("looked",), ("res", ("v", ins)))

    def call_unicode_get_sequence(self, s, ins, args):
        self.seen.add("sequence")
        self.emitted(s, ins)
        r = [x for x in self.get(s, "res") if contains(args[0], x[1])] if isinstance(args[0], tuple) else []
        if r:
            l, h, e = self.rng(s, r[0][1])
            if l < 0:
                self.report(s, ins, "negative", "a character that is not in the table is used")
            self.put(s, ("used",))
            self.args.append((args[0], r[0][1], ins))
        else:
            self.args.append((args[0], None, ins))
        self.drop(s, lambda x: x[0] in ("pos", "codes", "code"))
        self.put(s, ("pos", 0), ("codes", self.root_of(args[1])))

    def emitted(self, s, ins):
        p = self.get(s, "pos")
        if p and p[0][1] != 8:
            self.report(s, ins, "incomplete", f"a character's sequence is left after {p[0][1]} of 8 key events")
        self.drop(s, lambda x: x[0] in ("pos", "codes", "code"))

    def key(self, s, ins, code, state):
        p = self.get(s, "pos")
        if not p:
            return
        c = [x[1] for x in self.get(s, "code") if x[2] == code]
        st = self.const(s, state)
        n = p[0][1]
        if n == 8:
            self.drop(s, lambda x: x[0] in ("pos", "codes", "code"))
            return
        if not c or st is None or (n // 2 not in c) or (st != 0) != (n % 2 == 0):
            self.report(s, ins, "order", f"event {n} of a character's sequence is key {c} {'down' if st else 'up'}")
            self.drop(s, lambda x: x[0] in ("pos", "codes", "code"))
            return
        self.drop(s, lambda x: x[0] == "pos")
        self.put(s, ("pos", n + 1))

    def call_vkbd_send_key(self, s, ins, args):
        self.key(s, ins, args[1], args[2])

    def on_indirect(self, s, ins, args):
        if len(args) == 2:
            self.key(s, ins, args[0], args[1])

    def after_inst(self, s, ins):
        if ins.op == "load":
            a = self.val(s, ins.ops[0])
            r = self.root_of(a)
            if ("codes", r) in s.auto:
                k = a[2][-1][1] if a[0] == "a" and a[2] and a[2][-1][0] == "x" else 0
                self.put(s, ("code", k, s.env[ins]))
            if ("cp", r) in s.auto:
                self.put(s, ("cpv", s.env[ins]))

    def on_store(self, s, ins, addr, v):
        a = self._adr(addr)
        if lastfield(a) == ("macro_entry", "data"):
            r = [x for x in self.get(s, "res") if isinstance(v, tuple) and contains(v, x[1])]
            if r:
                l, h, e = self.rng(s, r[0][1])
                if l < 0:
                    self.report(s, ins, "negative", "a character that is not in the table is recorded")
                self.put(s, ("used",))
                if not self.get(s, "kind"):
                    self.put(s, ("data",))
                self.stored.append((v, r[0][1], ins, self.width(ins.ops[0].ty)))

    def on_exit(self, s, t):
        if t.op == "ret":
            v = self.val(s, t.ops[0]) if t.ops else 0
            l, h, e = self.rng(s, v)
            if h < 0 or l < 0 or l > 0:
                return          # refused
            self.settle(s, t)


def follow_char(ctx, T):
    m = ctx.mod
    N = len(T)
    ms = ModSets(m)
    keep = ("utf8_read_char", "unicode_lookup_index", "unicode_get_sequence", "vkbd_send_key")
    users = {f.src: f for f in m.fns.values() for i in f.insts() if i.op == "call" and isinstance(i.callee, GRef)
             and i.callee.name in m.fns and m.fns[i.callee.name].src in ("unicode_lookup_index", "unicode_get_sequence")}
    ctx.need(users, "nothing uses the table")
    stored, loaded, seen = [], [], {}
    roots = [f for n, f in users.items()]
    # helpers are seen inside their callers
    for f in list(roots):
        cs = {g.src for g, _ in callers(m, f.name)}
        if cs and cs <= {g.src for g in roots} - {f.src}:
            roots.remove(f)
    # a helper that only looks up or only emits is analysed within its callers
    out = []
    for f in roots:
        cs = [g for g, _ in callers(m, f.name)]
        has = {"lookup": "unicode_lookup_index" in closure(m, f), "seq": "unicode_get_sequence" in closure(m, f)}
        if cs and all(g.file == f.file for g in cs) and getattr(f, "static", False) and not ("utf8_read_char" in closure(m, f)):
            out += [g for g in cs if g not in out]
        else:
            out.append(f)
    for f in dict.fromkeys(out):
        g = inline(m, f, lambda c, ch: c.file == f.file and c.src not in keep)
        e = Use(m, g, ms).setup(N, None, None)
        e.want = {"lookup"} if any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns and m.fns[i.callee.name].src == "unicode_lookup_index" for i in g.insts()) else set()
        e.unroll(CFG(g), 8)
        e.run()
        e.flush(ctx)
        ctx.count("functions_followed")
        ctx.sample(f"followed {f.src}: {sorted(e.seen)}")
        seen[f.src] = e.seen
        stored += e.stored
        loaded += [x for x in e.args if x[1] is None]
        for a, tok, ins in e.args:
            if tok is not None:
                for i in (0, 255, 256, 32767, N - 1):
                    try:
                        if ev(m, a, {tok: i}) != i:
                            ctx.violation("narrowed", f"index {i} reaches the sequence as {ev(m, a, {tok: i})}", where=m.loc(ins))
                            break
                    except Unknown as u:
                        ctx.undecide("index", str(u))
    for v, tok, ins, w in stored:
        for a, _, ins2 in loaded:
            base = a
            while isinstance(base, tuple) and base[0] in ("sx", "tr", "+"):
                base = base[1]
            for i in (0, 255, 256, 32767, 32768, N - 1):
                try:
                    x = ev(m, v, {tok: i}) & ((1 << w * 8) - 1)
                    y = ev(m, a, {base: x})
                except Unknown as u:
                    ctx.undecide("index", str(u))
                    break
                ctx.count("index_widths")
                if y != i:
                    ctx.violation("narrowed", f"index {i} of a macro's character reaches the sequence as {y}", where=m.loc(ins2))
                    break
    lk = [k for k, x in seen.items() if "lookup" in x]
    ctx.need(len(lk) >= 1, "no function looks characters up")
    files = {f.file for n, f in users.items()}
    for need, what in (("src/macro.c", "macros"), ("src/daemon.c", "text injection")):
        if need not in files and len(lk) < 2:
            ctx.violation("unused", f"{what} cannot produce characters of the table")
    if stored and not loaded:
        ctx.violation("unused", "recorded characters are never emitted")


def run(ctx):
    T = table(ctx)
    ctx.rule("table entries are distinct characters above ASCII", distinct, T)
    ctx.rule("lookup returns the index of the character, or none after all entries", lookup, T)
    ctx.rule("the emitted sequence of every entry is the compose file's", sequence, T)
    ctx.rule("UTF-8 text of every character is decoded to it", decode, T)
    ctx.rule("characters are followed from the decoder to four pressed and released keys", follow_char, T)
