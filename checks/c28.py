"""C28: device matching. Four parts, each simulated over LLVM IR with everything it calls inlined:
the match of one configuration (0..2 id entries, every combination of entry kind, device kind and prefix outcome), the decision about one device
over a list of 0..3 configurations with every combination of ranks and capabilities (which kinds are asked for, which configuration it is given
to, whether it is grabbed), the parsing of id entries (every pair of entry kinds: what is stored where), and the device's own id and capabilities."""
import itertools
from seq import *
from c20 import follow
from c16 import manage_fn

NONNULL = (1, 1 << 62, frozenset())
ASSUMPTIONS = ["C library string functions behave as documented", "a device's id string is vendor:product:uid, as device_init writes it"]


def index_in(addr, arr):
    p = addr[2]
    for k, e in enumerate(p):
        if e[0] == "f" and e[2] == arr:
            if k + 1 < len(p) and p[k + 1][0] == "x":
                return canon(p[k + 1][1])
            return 0
    return None


def canon(av):
    while isinstance(av, tuple) and av[0] in ("sx", "tr"):
        av = av[1]
    return av


def last(addr):
    return addr[2][-1][2] if isinstance(addr, tuple) and addr[0] == "a" and addr[2] and addr[2][-1][0] == "f" else None


# ---- one configuration ----

class Match(Seq):
    def setup(self, kinds, flags, wild):
        self.kinds, self.flags, self.wild = kinds, flags, wild
        self.id, self.cfg = Sym("id", 64, NONNULL), Sym("config", 64, NONNULL)
        self.len, self.got, self.unknown = [Sym(f"len{i}", 64) for i in range(len(kinds))], [], set()
        return self

    def seed(self, s):
        c, i, f = self.fn.args
        s.env[c], s.env[i], s.env[f] = ("v", self.cfg), ("v", self.id), self.flags

    def entry(self, a):
        if isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", self.cfg) and index_in(a, "ids") is not None:
            return index_in(a, "ids")

    def fresh_load(self, s, addr, ins):
        if not (isinstance(addr, tuple) and addr[0] == "a" and addr[1] == ("v", self.cfg)):
            if isinstance(addr, tuple) and addr[0] == "a" and addr[1] == ("v", self.id):
                self.unknown.add("the id is compared character by character")
            return None
        f = last(addr)
        i = self.entry(addr)
        if i is not None:
            if not isinstance(i, int):
                return None
            if f == "flags":
                if i >= len(self.kinds):
                    self.report(s, ins, "beyond", "an id entry past the last one is consulted")
                    return 0
                return self.kinds[i]
            self.unknown.add("an id entry is compared character by character")
            return None
        if f == "nr_ids":
            return len(self.kinds)
        if f == "wildcard":
            return self.wild
        return None

    def outcome(self, s, ins, i, res):
        """fork over whether entry i is a prefix of the device's id."""
        known = [x[2] for x in self.get(s, "m") if x[1] == i]
        out = []
        for k in (known or ("prefix", "inner", "none")):
            t = s.copy()
            self.put(t, ("m", i, k))
            self.put(t, ("force", ins, res[k]))
            out.append(t)
        return out

    def call_strstr(self, s, ins, args):
        a, b = args[0], args[1]
        if a == ("v", self.id) and isinstance(self.entry(b), int):
            return self.outcome(s, ins, self.entry(b), {"prefix": ("v", self.id), "inner": ("a", ("v", self.id), (("x", 1),)), "none": 0})
        self.unknown.add("strstr on something else than the device's id and an entry")

    def call_strncmp(self, s, ins, args):
        e = [self.entry(a) for a in args[:2]]
        i = next((x for x in e if isinstance(x, int)), None)
        if i is None or ("v", self.id) not in args[:2]:
            self.unknown.add("strncmp on something else than the device's id and an entry")
            return
        if args[2] != ("v", self.len[i] if i < len(self.len) else None):
            self.report(s, ins, "length", "an id entry is not compared up to its own length")
        return self.outcome(s, ins, i, {"prefix": 0, "inner": 1, "none": 1})
    call_memcmp = call_strncmp

    def call_strlen(self, s, ins, args):
        i = self.entry(args[0])
        if isinstance(i, int) and i < len(self.len):
            self.put(s, ("force", ins, ("v", self.len[i])))

    def call_strcmp(self, s, ins, args):
        if any(isinstance(self.entry(a), int) for a in args[:2]):
            self.report(s, ins, "exact", "an id entry has to be the whole device id")

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def match(ctx, n):
    m = ctx.mod
    f = ctx.need(m.fn("config_check_match"), "config_check_match not found")
    ctx.need(len(f.args) == 3, "config_check_match takes other arguments")
    g = inline(m, f, lambda c, ch: True)
    ms = ModSets(m)
    K, M, X = m.macro("ID_KEYBOARD"), m.macro("ID_MOUSE"), m.macro("ID_EXCLUDED")
    unk = set()
    for kinds in itertools.product((K, M, K | M, X), repeat=n):
        for flags in (K, M, K | M):
            for wild in (0, 1):
                e = Match(m, g, ms).setup(kinds, flags, wild)
                follow(e, g, m)
                e.run()
                e.flush(ctx)
                ctx.count("match_runs")
                unk |= e.unknown
                if e.unknown:
                    continue
                for s, t in e.got:
                    ctx.count("match_paths")
                    r = e.const(s, e.val(s, t.ops[0]))
                    hit = {x[1]: x[2] == "prefix" for x in e.get(s, "m")}
                    exc = [i for i in range(n) if kinds[i] == X]
                    com = [i for i in range(n) if kinds[i] & flags and kinds[i] != X]
                    E = [hit.get(i) for i in exc]
                    C = [hit.get(i) for i in com]
                    if r is None:
                        ctx.undecide("result of config_check_match", "not a constant on a path")
                        continue
                    w = f" (entries {[{K: 'keyboard', M: 'mouse', X: 'excluded'}.get(k, 'both') for k in kinds]}, which match: {hit}, device kinds {flags:#x}, wildcard {wild})"
                    path = dict(where=m.loc(t), path=trace_str(s.trace))
                    if r >= 2 or r < 0:
                        if True not in C:
                            ctx.violation("named-wrong", "a device is taken as named although no entry for its kind matches it" + w, **path)
                    elif r == 1:
                        if True in E or None in E:
                            ctx.violation("wildcard-excluded", "an excluded device is captured by the wildcard" + w, **path)
                        if True in C or None in C:
                            ctx.violation("named-as-wildcard", "a device named explicitly ranks no higher than a wildcard match" + w, **path)
                        if not wild:
                            ctx.violation("unnamed", "a device no entry names is matched without a wildcard" + w, **path)
                    else:
                        if True not in E:
                            if True in C or None in C:
                                ctx.violation("named-lost", "a device named explicitly is not matched" + w, **path)
                            elif wild:
                                ctx.violation("wildcard-lost", "the wildcard does not match a device that is neither named nor excluded" + w, **path)
    for u in unk:
        ctx.undecide("config_check_match", u)


# ---- one device, several configurations ----

class Choose(Seq):
    def setup(self, ranks, caps, virtual, dev):
        self.ranks, self.caps, self.virtual, self.dev = ranks, caps, virtual, dev
        self.nodes = [Sym(f"ent{i}", 64, NONNULL) for i in range(len(ranks))]
        self.kbd = [Sym(f"kbd{i}", 64, NONNULL) for i in range(len(ranks))]
        self.got = []
        return self

    def seed(self, s):
        g = self.head
        s.mem[(("a", ("g", g), ()), 8)] = ("v", self.nodes[0]) if self.nodes else 0

    def fresh_load(self, s, addr, ins):
        if not (isinstance(addr, tuple) and addr[0] == "a"):
            return None
        if addr[1] == self.dev:
            f = last(addr)
            return {"capabilities": self.caps, "is_virtual": self.virtual, "grabbed": 0}.get(f)
        for i, n in enumerate(self.nodes):
            if addr[1] == ("v", n):
                if last(addr) == "next":
                    return ("v", self.nodes[i + 1]) if i + 1 < len(self.nodes) else 0
                if last(addr) == "kbd":
                    return ("v", self.kbd[i])

    def call_config_check_match(self, s, ins, args):
        a = args[0]
        r = a[1] if isinstance(a, tuple) and a[0] == "a" else a
        for i, n in enumerate(self.nodes):
            if r == ("v", n):
                self.put(s, ("force", ins, self.ranks[i]))
                self.put(s, ("asked", i))
                break
        else:
            self.report(s, ins, "foreign", "a configuration that is not in the list is consulted")
        b = args[1]
        if not (isinstance(b, tuple) and b[0] == "a" and b[1] == self.dev and last(b) == "id"):
            self.report(s, ins, "not-id", "a device is matched by something else than its id")
        k = self.const(s, args[2])
        if k != self.want:
            self.report(s, ins, "kinds", f"a device with capabilities {self.caps:#x} is matched as kinds {k} instead of {self.want}")

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)

    def on_other(self, s, ins, args, n):
        pass

    def call_device_grab(self, s, ins, args):
        self.put(s, ("grab",))
        out = []
        for r in (0, 0xffffffff):
            t = s.copy()
            self.put(t, ("force", ins, r))
            if r:
                self.put(t, ("failed",))
            out.append(t)
        return out

    def call_device_ungrab(self, s, ins, args):
        self.put(s, ("ungrab",))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def list_head(m):
    """The list of configurations: the pointer global whose pointee has a config member."""
    out = []
    for n, g in m.globals.items():
        if "configs" == n or n.startswith("configs."):
            out.append(n)
    return out[0] if len(out) == 1 else None


def choose(ctx, caps):
    m = ctx.mod
    root = ctx.need(manage_fn(m), "no function decides about devices")
    head = ctx.need(list_head(m), "the list of configurations was not found")
    ms = ModSets(m)
    keep = ("config_check_match", "device_grab", "device_ungrab")
    f = inline(m, root, lambda c, ch: c.file == root.file and c.src not in keep)
    dev = next(("v", a) for a in f.args if a.ty.k == "ptr")
    K, M = m.macro("ID_KEYBOARD"), m.macro("ID_MOUSE")
    CK, CM, CA = m.macro("CAP_KEYBOARD"), m.macro("CAP_MOUSE"), m.macro("CAP_MOUSE_ABS")
    want = (K if caps & CK else 0) | (M if caps & (CM | CA) else 0)
    cases = [(r, 0) for n in range(4) for r in itertools.product((0, 1, 2), repeat=n)] + [((2, 1), 1)]
    for ranks, virt in cases:
        e = Choose(m, f, ms).setup(ranks, caps, virt, dev)
        e.head, e.want = head, want
        follow(e, f, m)
        e.run()
        e.flush(ctx)
        ctx.count("choose_runs")
        top = max(ranks, default=0)
        ok = [e.kbd[i] for i, r in enumerate(ranks) if r == top and r]
        if top == 1 and want == M:
            ok = []
        if virt:
            ok = []
        for s, t in e.got:
            ctx.count("choose_paths")
            d = peek(e, s, ("a", dev, (("f", "device", "data"),)), 8)
            w = f" (ranks of the configurations {list(ranks)}, capabilities {caps:#x}{', its own virtual device' if virt else ''})"
            path = dict(where=m.loc(t), path=trace_str(s.trace))
            owner = d[1] if isinstance(d, tuple) and d[0] == "v" and d[1] in e.kbd else None
            if owner is not None and owner not in ok:
                if not ok:
                    ctx.violation("captured", "a device is captured although no configuration may have it" + w, **path)
                else:
                    ctx.violation("wrong-config", "a device is given to a configuration with a weaker claim" + w, **path)
            if e.get(s, "grab") and not ok:
                ctx.violation("grabbed", "a device is grabbed although no configuration may have it" + w, **path)
            if ok and owner is None and not e.get(s, "failed"):
                ctx.violation("not-captured", "a device is not given to the configuration that matches it" + w, **path)
            if owner is not None and not e.get(s, "grab"):
                ctx.violation("not-grabbed", "a device is associated with a configuration but not grabbed" + w, **path)


# ---- the [ids] section ----

PLAIN = ("04", "m0", "k0")       # entries without a prefix


class Parse(Seq):
    """Entries are known only by their kind: the prefix is known, the rest is not."""

    def setup(self, kinds):
        self.kinds = kinds
        self.keys = [Sym(f"key{i}", 64, NONNULL) for i in range(len(kinds))]
        self.got, self.unknown = [], set()
        self.cfg, self.sec = None, None
        return self

    def which(self, a):
        """(entry, offset) of a pointer into an entry's key text."""
        a = canon(a)
        if isinstance(a, tuple):
            r, off = a, 0
            if a[0] == "a":
                r = a[1]
                for e in a[2]:
                    if e[0] != "x":
                        return None
                    off = off + e[1] if isinstance(e[1], int) and isinstance(off, int) else None
            for i, k in enumerate(self.keys):
                if r == ("v", k):
                    return i, off
        return None

    def char(self, i, off):
        """Concrete character at that place, None unknown, or a set of what it is not."""
        k = self.kinds[i]
        if off is None:
            return None
        if off < len(k):
            return ord(k[off])
        if k == "*":
            return 0 if off == 1 else None
        if off == len(k):
            return {0}          # some further character
        return None

    def fresh_load(self, s, addr, ins):
        p = self.which(addr)
        if p:
            c = self.char(*p)
            if isinstance(c, int):
                return c
            return ("v", Sym("chr", 8, (1, 255, frozenset(c)) if isinstance(c, set) else None))
        if not (isinstance(addr, tuple) and addr[0] == "a"):
            return None
        f = last(addr)
        if addr[1] == self.sec:
            if f == "nr_entries":
                return len(self.kinds)
            i = index_in(addr, "entries")
            if isinstance(i, int) and i < len(self.keys):
                return {"key": ("v", self.keys[i]), "val": 0}.get(f)
        if addr[1] == self.cfg and f == "nr_ids":
            return 0

    def prefix(self, s, i, off, lit, n=None):
        """Is lit (up to n characters) a prefix of the text? True, False or None."""
        t = lit if n is None else lit[:n]
        res = True
        for k, ch in enumerate(t):
            c = self.char(i, off + k)
            if isinstance(c, int):
                if c != ord(ch):
                    return False
            elif isinstance(c, set) and ord(ch) in c:
                return False
            else:
                res = None
        return res

    def forks(self, s, ins, vals):
        out = []
        for v in vals:
            t = s.copy()
            self.put(t, ("force", ins, v))
            out.append(t)
        return out

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)

    def two(self, args):
        p, l = self.which(args[0]), strarg(self.mod, args[1])
        if p is None:
            p, l = self.which(args[1]), strarg(self.mod, args[0])
        return (p, l) if p and p[1] is not None and l is not None else (None, None)

    def call_strcmp(self, s, ins, args):
        p, l = self.two(args)
        if p is None:
            return
        r = self.prefix(s, p[0], p[1], l + "\0")
        return self.forks(s, ins, [0] if r else [1] if r is False else [0, 1])

    def call_strncmp(self, s, ins, args):
        p, l = self.two(args)
        n = self.const(s, args[2])
        if p is None or n is None:
            return
        r = self.prefix(s, p[0], p[1], l + "\0", n)
        return self.forks(s, ins, [0] if r else [1] if r is False else [0, 1])
    call_memcmp = call_strncmp

    def call_strstr(self, s, ins, args):
        p, l = self.which(args[0]), strarg(self.mod, args[1])
        if p is None or l is None or p[1] is None:
            return
        r = self.prefix(s, p[0], p[1], l)
        if r is None:
            self.unknown.add("strstr")
            return
        self_ = self._adr(args[0]) if p[1] == 0 else args[0]
        other = [] if self.kinds[p[0]] == "*" else [("a", ("v", self.keys[p[0]]), (("x", 40),))]
        return self.forks(s, ins, [args[0]] if r else [0] + other)

    def call_strchr(self, s, ins, args):
        p = self.which(args[0])
        if p:
            self.unknown.add("strchr")

    def dest(self, s, a):
        """index of the entry whose id is written."""
        if isinstance(a, tuple) and a[0] == "a" and a[1] == self.cfg and last(a) == "id":
            return self.const(s, index_in(a, "ids"))

    def wrote(self, s, ins, d, src):
        i = self.dest(s, d)
        if i is None:
            return
        p = self.which(src)
        if p is None or p[1] is None:
            self.unknown.add("an id is written from elsewhere")
            return
        self.drop(s, lambda x: x[0] == "id" and x[1] == i)
        self.put(s, ("id", i, p[0], p[1]))

    def call_snprintf(self, s, ins, args):
        fm = strarg(self.mod, args[2])
        if fm == "%s":
            self.wrote(s, ins, args[0], args[3])
        elif self.dest(s, args[0]) is not None:
            self.unknown.add(f"an id is written as {fm!r}")

    def call_strcpy(self, s, ins, args):
        self.wrote(s, ins, args[0], args[1])
    call_strncpy = call_strlcpy = call_strcpy

    def on_store(self, s, ins, addr, v):
        a = self._adr(addr)
        if isinstance(a, tuple) and a[0] == "a" and a[1] == self.cfg:
            f = last(a)
            if f == "flags" and index_in(a, "ids") is not None:
                i = self.const(s, index_in(a, "ids"))
                self.drop(s, lambda x: x[0] == "flags" and x[1] == i)
                self.put(s, ("flags", i, self.const(s, v)))
            elif f == "wildcard":
                self.drop(s, lambda x: x[0] == "wild")
                self.put(s, ("wild", self.const(s, v)))
            elif f == "nr_ids":
                self.drop(s, lambda x: x[0] == "n")
                self.put(s, ("n", self.const(s, v)))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def id_parser(m):
    f = m.fn("parse_id_section")
    if f is not None:
        return f
    c = []
    for f in m.fns.values():
        if f.file == "src/config.c" and len(f.args) == 2 and all(a.ty.k == "ptr" for a in f.args):
            ms = ModSets(m).of(f)[0]
            if ("config", "wildcard") in ms and ("config", "layers") not in ms:
                c.append(f)
    return c[0] if len(c) == 1 else None


def parse(ctx, kinds):
    m = ctx.mod
    root = id_parser(m)
    if root is None:
        ctx.undecide("the [ids] section", "no function of its own handles it")
        return
    f = inline(m, root, lambda c, ch: c.file == root.file)
    e = Parse(m, f, ModSets(m)).setup(kinds)
    a = [("v", x) for x in f.args]
    ctx.need(len(a) == 2, "the [ids] parser takes other arguments")
    # the section is the argument whose entries are read
    e.cfg, e.sec = a[0], a[1]
    follow(e, f, m)
    e.run()
    e.flush(ctx)
    ctx.count("parse_runs")
    if e.unknown:
        ctx.undecide(f"[ids] entries {kinds}", ", ".join(e.unknown))
        return
    K, M, X = m.macro("ID_KEYBOARD"), m.macro("ID_MOUSE"), m.macro("ID_EXCLUDED")
    FL = {"m:": M, "k:": K, "-": X}
    FL.update({k: K | M for k in PLAIN})
    ids = [(i, k) for i, k in enumerate(kinds) if k != "*"]
    full = 0
    for s, t in e.got:
        ctx.count("parse_paths")
        n = {x[1] for x in e.get(s, "n")}
        n = n.pop() if len(n) == 1 else 0
        path = dict(where=m.loc(t), path=trace_str(s.trace))
        w = f" (entries {[k + 'X' if k != '*' else k for k in kinds]})"
        got = {x[1]: (x[2], x[3]) for x in e.get(s, "id")}
        fl = {x[1]: x[2] for x in e.get(s, "flags")}
        wild = [x[1] for x in e.get(s, "wild")]
        wild = wild[0] if wild else 0
        if ("*" in kinds) != bool(wild):
            ctx.violation("wildcard-flag", "the wildcard is " + ("not recorded" if "*" in kinds else "recorded without being written") + w, **path)
        must = [(i, k) for i, k in ids if k not in PLAIN]
        exp = ids if n == len(ids) else None
        if n == len(ids):
            full += 1
        if n > len(ids) or n < len(must):
            ctx.violation("count", f"{n} ids are recorded" + w, **path)
            continue
        pos = 0
        for i, k in ids:
            g = got.get(pos)
            if g is None or pos >= n or g[0] != i:
                if k not in PLAIN:
                    ctx.violation("lost", "a prefixed id is not recorded" + w, **path)
                continue
            if g[1] != (0 if k in PLAIN else len(k)):
                ctx.violation("text", f"the recorded id of an entry {k + 'X'!r} starts at character {g[1]}" + w, **path)
            if fl.get(pos) != FL[k]:
                ctx.violation("flags", f"an entry {k + "X"!r} is recorded for kinds {fl.get(pos)} instead of {FL[k]}" + w, **path)
            pos += 1
        if pos != n:
            ctx.violation("extra", "an id is recorded that no entry gives" + w, **path)
    if not full and not e.bad:
        ctx.violation("never", f"ids are never all recorded (entries {kinds})")


# ---- the device's own id and kinds ----

class Init(Seq):
    """device_init() for a device with the given key, rel and abs masks and vendor/product."""

    def setup(self, keys, rel, ab, vendor, product):
        self.keys, self.rel, self.ab, self.vendor, self.product, self.got = keys, rel, ab, vendor, product, []
        return self

    def call_open(self, s, ins, args):
        self.put(s, ("force", ins, 5))

    def call_ioctl(self, s, ins, args):
        self.put(s, ("force", ins, 0))

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)
        if self.callname(ins) != "ioctl":
            return
        r = self.const(s, self.val(s, ins.ops[1]))
        if r is None or (r >> 8) & 0xff != ord("E"):
            return
        a = self.val(s, ins.ops[2])
        r &= 0xff
        root, p = (a[1], a[2]) if a[0] == "a" else (a, ())
        if r == 0x21:
            for i in range(24):
                q = p + ((("x", i),) if i else ())
                s.mem[(("a", root, q), 4)] = sum(1 << (k % 32) for k in self.keys if k // 32 == i)
        elif r in (0x22, 0x23):
            s.mem[(("a", root, p), 1) if p else (a, 1)] = self.rel if r == 0x22 else self.ab
        elif r == 2:
            for f, v in (("vendor", self.vendor), ("product", self.product)):
                s.mem[(("a", root, p + (("f", "input_id", f),)), 2)] = v

    def call_snprintf(self, s, ins, args):
        if last(args[0]) == "id" and args[0][1] == self.dev:
            fm = strarg(self.mod, args[2]) or ""
            self.put(s, ("id", fm, tuple(self.const(s, a) for a in args[3:5])))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


KEYS = {"none": (), "letters": tuple(range(2, 29)), "brightness": (225,), "volume": (115,), "buttons": (272, 273)}


def identify(ctx, case):
    m = ctx.mod
    f = m.fn("device_init", "src/device.c")
    if f is None or len(f.args) != 2:
        ctx.undecide("device identification", "no device_init(path, device)")
        return
    name, rel, ab, vendor = case
    g = inline(m, f, reaching(m, ["ioctl"]))
    e = Init(m, g, ModSets(m)).setup(KEYS[name], rel, ab, vendor, 0x5678)
    e.dev = ("v", g.args[1])
    e.unroll(CFG(g), 32)
    e.run()
    ctx.count("init_runs")
    CK, CM, CA = m.macro("CAP_KEYBOARD"), m.macro("CAP_MOUSE"), m.macro("CAP_MOUSE_ABS")
    kb, mo = name in ("letters", "brightness", "volume"), bool(rel or ab)
    w = f" (keys: {name}, relative axes {rel:#x}, absolute axes {ab:#x}, vendor {vendor:#06x})"
    okay = 0
    for s, t in e.got:
        path = dict(where=m.loc(t), path=trace_str(s.trace))
        if e.const(s, e.val(s, t.ops[0])) != 0:
            continue
        okay += 1
        ctx.count("init_paths")
        c = peek(e, s, ("a", e.dev, (("f", "device", "capabilities"),)), 1)
        c = e.const(s, c) if c is not None else None
        v = peek(e, s, ("a", e.dev, (("f", "device", "is_virtual"),)), 1)
        v = e.const(s, v) if v is not None else None
        if c is None:
            ctx.undecide("capabilities" + w, "not a constant on a path")
        else:
            if bool(c & CK) != kb:
                ctx.violation("keyboard-kind", f"a device is {'' if c & CK else 'not '}taken for a keyboard" + w, **path)
            if bool(c & (CM | CA)) != mo:
                ctx.violation("mouse-kind", f"a device is {'' if c & (CM | CA) else 'not '}taken for a mouse" + w, **path)
        if v is not None and bool(v) != (vendor == 0x0fac):
            ctx.violation("own-device", f"a device is {'' if v else 'not '}taken for keyd's own" + w, **path)
        ids = e.get(s, "id")
        for x in ids:
            if not x[1].startswith("%04x:%04x") or x[2] != (vendor, 0x5678):
                ctx.violation("id-text", f"a device's id is not vendor:product… but {x[1]!r} of {x[2]}" + w, **path)
        if not ids:
            ctx.undecide("device id", "not written by snprintf")
    if (kb or mo) and not okay:
        ctx.violation("unusable", "a keyboard or mouse can never be used" + w, where=(f.file, f.src))


def run(ctx):
    for n in (0, 1, 2):
        ctx.rule(f"one configuration, {n} entries: named beats wildcard, exclusion beats the wildcard, prefixes restrict the kind", match, n)
    m = ctx.mod
    CK, CM, CA = m.macro("CAP_KEYBOARD"), m.macro("CAP_MOUSE"), m.macro("CAP_MOUSE_ABS")
    ctx.rule("one device: it goes to a configuration with the strongest claim, or to none", lambda c: c.pmap(choose, [x for x in range(1, 8)]))
    kinds = ("*", "m:", "k:", "-") + PLAIN
    ctx.rule("[ids] entries: what is recorded for each prefix", lambda c: c.pmap(parse, [(k,) for k in kinds] + list(itertools.product(kinds, repeat=2))))
    ctx.rule("a device's kinds follow from its keys and axes, its id is vendor:product:uid, keyd's own device is recognised",
             lambda c: c.pmap(identify, [(k, r, a, v) for k in KEYS for r, a in ((0, 0), (3, 0), (0, 3)) for v in (0x1234, 0x0fac)]))
    ctx.need(ctx.counts.get("match_paths", 0) > 100 and ctx.counts.get("choose_paths", 0) > 100, "too little was simulated")
