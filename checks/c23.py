"""C23: options of the [global] section. The options and defaults are read from the manual. The section parser is simulated over LLVM IR for every
documented option (and every other name it knows) with a range of values: each is stored, whole, in a field of its own and nothing else changes.
The defaults set before parsing are compared with the manual. The engine and the daemon are then simulated action by action with
these fields symbolic or set: every field must reach the deadline, comparison, pause, LED, guard or layout it is documented for, be without
effect when it is zero where the manual says so, and be consulted by no other action."""
import re, os
from seq import *
from c20 import follow, canon
from c10 import lin, nf, minus, timers, chordlimits, age, statefield, stepfn
import c28

NONNULL = (1, 1 << 62, frozenset())
ASSUMPTIONS = ["the manual (docs/keyd.scdoc) states the options, their kind and their defaults"]
CFILE = "src/config.c"
VALUES = (0, 1, 2, 7, 50, 127, 128, 255, 256, 600, 1000, 32767, 32768, 65535, 65536, 100000, 1 << 24, 2147483647)
FLAGS = {"layer_indicator", "disable_modifier_guard"}
TEXTS = {"default_layout"}
TIMES = {"macro_timeout", "macro_repeat_timeout", "macro_sequence_timeout", "chord_timeout", "chord_hold_timeout", "oneshot_timeout", "overload_tap_timeout"}


def manual(repo):
    """{option: default or None} of the GLOBALS section."""
    t = open(os.path.join(repo, "docs/keyd.scdoc")).read()
    r = re.search(r"^# GLOBALS\n(.*?)^# ", t, re.M | re.S)
    out = {}
    cur = None
    for line in (r.group(1) if r else "").split("\n"):
        h = re.match(r"\s+\*(\w+):\*", line)
        if h:
            cur = h.group(1)
            out[cur] = None
        d = re.search(r"\(default: (\d+)\)", line)
        if d and cur:
            out[cur] = int(d.group(1))
    return out


def fieldpath(addr):
    return tuple((e[1], e[2]) for e in addr[2] if e[0] == "f") if isinstance(addr, tuple) and addr[0] == "a" else ()


def cfgfield(addr):
    """The configuration field an address denotes, or None."""
    p = fieldpath(addr)
    if p and p[-1][0] == "config":
        return p[-1][1]
    return None


# ---------------------------------------------------------------- the section parser

class Opt(c28.Parse):
    def opt(self, key, value):
        c28.Parse.setup(self, [key])
        self.value, self.valp, self.sets, self.text = value, Sym("val", 64, NONNULL), [], False
        return self

    def char(self, i, off):
        k = self.kinds[i]
        return None if off is None or off > len(k) or off < 0 else ord(k[off]) if off < len(k) else 0

    def fresh_load(self, s, addr, ins):
        p = self.which(addr)
        if p:
            c = self.char(*p)
            return c if c is not None else ("v", ins)
        if isinstance(addr, tuple) and addr[0] == "a" and addr[1] == self.sec:
            if c28.last(addr) == "nr_entries":
                return 1
            i = c28.index_in(addr, "entries")
            if i == 0:
                return {"key": ("v", self.keys[0]), "val": ("v", self.valp)}.get(c28.last(addr), ("v", ins))
        return ("v", ins)

    def number(self, s, ins, args):
        if args[0] == ("v", self.valp):
            self.put(s, ("force", ins, self.value))
    call_atoi = call_atol = call_strtol = call_strtoul = number

    def at(self, addr):
        """The configuration field at an address, given by name or by offset."""
        if not (isinstance(addr, tuple) and addr[0] == "a" and addr[1] == self.cfg):
            return None
        if len(addr[2]) == 1 and addr[2][0][0] == "x":
            m, off = self.mod, addr[2][0][1]
            st = m.struct("config")
            for k, (d, n) in m.fields.items():
                if d == "config":
                    for j, x in enumerate(n):
                        if m.offset(st, j) == off:
                            return x
        return cfgfield(addr)

    def on_store(self, s, ins, addr, v):
        f = self.at(addr)
        if f:
            self.drop(s, lambda x: x[0] == "set" and x[1] == f)
            self.put(s, ("set", f, v, ins))

    def call_snprintf(self, s, ins, args):
        f = self.at(args[0])
        if f:
            fmt = strarg(self.mod, args[2])
            whole = fmt == "%s" and args[3] == ("v", self.valp)
            self.put(s, ("set", f, ("text", whole, self.const(s, args[1])), ins))

    def call_strncpy(self, s, ins, args):
        self.unknown.add("strncpy")
    call_strcpy = call_memcpy = call_strlcpy = call_strncpy


def section_parser(m):
    f = m.fn("parse_global_section")
    if f is not None:
        return f
    c = []
    for f in m.fns.values():
        if f.file == CFILE and len(f.args) == 2 and all(a.ty.k == "ptr" for a in f.args):
            ms = ModSets(m).of(f)[0]
            if ("config", "macro_timeout") in ms and ("config", "layers") not in ms:
                c.append(f)
    return c[0] if len(c) == 1 else None


def names_known(m, f):
    """Literals compared in the section parser."""
    g = inline(m, f, lambda c, ch: c.file == CFILE)
    out = set()
    for i in g.insts():
        if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("strcmp", "strcasecmp", "strncmp"):
            for o in i.ops[:2]:
                o = strip(o)
                if isinstance(o, GRef) and o.name in m.globals and isinstance(m.globals[o.name].init, Str):
                    out.add(m.globals[o.name].init.b.split(b"\0")[0].decode())
    for x in m.globals.values():         # a table of names
        if x.const and isinstance(x.init, Agg) and any(strip(o) == GRef(x.name) if False else isinstance(strip(o), GRef) and strip(o).name == x.name
                                                       for i in g.insts() for o in i.ops if not isinstance(o, (Const,))):
            for el in x.init.elems:
                for v in (el.elems if isinstance(el, Agg) else [el]):
                    b = m.cstr(v) if isinstance(v, (GRef, CExpr)) else None
                    if b:
                        out.add(b.decode("latin1"))
    return {x for x in out if re.match(r"\w+$", x)}


def parse_one(ctx, g, ms, key, value):
    e = Opt(ctx.mod, g, ms).opt(key, value)
    e.cfg, e.sec = [("v", a) for a in g.args]
    follow(e, g, ctx.mod)
    e.run()
    ctx.count("option_values")
    return e


def fields(ctx):
    """{option: field}, found by simulating the parser."""
    m = ctx.mod
    if hasattr(m, "_c23"):
        return m._c23
    f = ctx.need(section_parser(m), "the parser of the [global] section was not found")
    g = inline(m, f, lambda c, ch: c.file == CFILE)
    ms = ModSets(m)
    doc = manual(ctx.repo)
    known = names_known(m, f)
    out = {}
    for k in sorted(set(doc) | known | {"default_layout"}):
        e = parse_one(ctx, g, ms, k, 1)
        if e.unknown:
            ctx.undecide("options", "; ".join(sorted(e.unknown)))
        sets = {x[1] for s, t in e.got for x in e.get(s, "set")}
        out[k] = sets
    m._c23 = (out, doc, g, ms, f)
    return m._c23


def options(ctx):
    m = ctx.mod
    out, doc, g, ms, f = fields(ctx)
    ctx.need(len(doc) >= 5, "the manual's list of global options was not found")
    where = dict(where=(f.file, f.src))
    owner = {}
    for k, sets in sorted(out.items()):
        ctx.count("options")
        if not sets:
            if k in doc:
                ctx.violation(f"unknown:{k}", f"the documented option {k} is not recognised", **where)
            elif k == "default_layout":
                ctx.violation(f"unknown:{k}", f"the option {k}, used in the manual, is not recognised", **where)
            continue
        for x in sets:
            if x in owner and owner[x] != k:
                ctx.violation(f"shared:{k}", f"the options {owner[x]} and {k} set the same field ({x})", **where)
            owner.setdefault(x, k)
        for v in VALUES + ((-1,) if k in FLAGS else ()):
            e = parse_one(ctx, g, ms, k, v)
            for s, t in e.got:
                st = {x[1]: (x[2], x[3]) for x in e.get(s, "set")}
                if len(st) != 1:
                    ctx.violation(f"fields:{k}", f"{k} = {v} sets the fields {sorted(st)}", **where)
                    continue
                (fld, (val, ins)), = st.items()
                w = dict(where=m.where(ins), path=trace_str(s.trace))
                if isinstance(val, tuple) and val[0] == "text":
                    if k not in TEXTS or not val[1]:
                        ctx.violation(f"text:{k}", f"the value of {k} is not stored as it is written", **w)
                    elif val[2] is None or val[2] < 2:
                        ctx.undecide(k, "unknown size")
                    continue
                c = e.const(s, val)
                if c is None:
                    if k not in TEXTS:
                        ctx.undecide(f"value of {k}", "not a constant")
                    continue
                c = stored(m, ins, c)
                if k in FLAGS:
                    if bool(c) != bool(v):
                        ctx.violation(f"cut:{k}", f"{k} = {v} counts as {'set' if c else 'not set'}", **w)
                elif c != v:
                    ctx.violation(f"cut:{k}", f"{k} = {v} becomes {c}", **w)
    # nothing else in the configuration reader changes these fields
    for x, k in owner.items():
        if x not in {y[1] for y in ms.of(f)[0] if isinstance(y, tuple) and y[0] == "config"} and False:
            pass


def stored(m, ins, c):
    """What is read back after a store of that width (fields are signed unless they are bytes)."""
    w = ins.ops[0].ty.a if ins.op == "store" and hasattr(ins.ops[0], "ty") and ins.ops[0].ty.k == "int" else 64
    c &= (1 << w) - 1
    return c - (1 << w) if w > 8 and c >> (w - 1) else c


# ---------------------------------------------------------------- defaults

class Init(Seq):
    def setup(self, fieldset):
        self.fieldset, self.got = fieldset, []
        return self

    def on_store(self, s, ins, addr, v):
        f = cfgfield(addr)
        if f in self.fieldset:
            self.drop(s, lambda x: x[0] == "set" and x[1] == f)
            self.put(s, ("set", f, v, ins))

    def call_memset(self, s, ins, args):
        if args[0] == ("v", self.fn.args[0]) and self.const(s, args[1]) == 0 and (self.const(s, args[2]) or 0) >= self.size:
            self.drop(s, lambda x: x[0] == "set")
            self.put(s, ("zero",))

    def on_other(self, s, ins, args, n):
        if n.startswith("llvm.memset"):
            self.call_memset(s, ins, args)

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def defaults(ctx):
    m = ctx.mod
    out, doc, g0, ms, f0 = fields(ctx)
    f = m.fn("config_init")
    if f is None:
        c = [x for x in m.fns.values() if x.file == CFILE and len(x.args) == 1 and ("config", "macro_timeout") in ms.of(x)[0] and "memset" in libcalls(m, x)]
        f = c[0] if len(c) == 1 else None
    ctx.need(f is not None, "the function that sets the defaults was not found")
    fs = {x for k in out for x in out[k]}
    g = inline(m, f, lambda c, ch: c.file == CFILE and not {"strtok", "malloc", "ini_parse_string"} & (libcalls(m, c) | closure(m, c)))
    e = Init(m, g, ms).setup(fs)
    e.size = m.structsize("config")
    e.run()
    ctx.need(e.got, "config_init never returns")
    for k, sets in sorted(out.items()):
        if len(sets) != 1 or k in TEXTS:
            continue
        fld, = sets
        for s, t in e.got:
            ctx.count("defaults")
            x = next((x for x in e.get(s, "set") if x[1] == fld), None)
            want = doc.get(k)
            if x is None:
                if ("zero",) not in s.auto:
                    ctx.undecide(f"default of {k}", "the configuration is not cleared as a whole")
                    continue
                c, w = 0, m.loc(t)
            else:
                c, w = e.const(s, x[2]), m.where(x[3])
            if c is None:
                ctx.undecide(f"default of {k}", "not a constant")
            elif c != (want or 0):
                ctx.violation(f"default:{k}", f"{k} is {c} by default" + (f" instead of the documented {want}" if want is not None else ", though the manual states no default"), where=w, path=trace_str(s.trace))
    t = next((x.init.b for x in m.globals.values() if isinstance(x.init, Str) and b"[main:layout]" in x.init.b), b"")
    if b"[global]" in t:
        ctx.undecide("defaults", "the built-in configuration sets global options")
    # the defaults are set before the file is read
    p = m.fn("config_parse")
    if p is not None:
        h = inline(m, p, lambda c, ch: False)
        names = []
        for b in CFG(h).order if hasattr(CFG(h), "order") else h.blocks:
            for i in b.insts:
                if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
                    names.append(m.fns[i.callee.name].src)
        if f.src in names and "config_parse_string" in names and names.index(f.src) > names.index("config_parse_string"):
            ctx.violation("late", "the defaults are set after the file has been read", where=(p.file, p.src))


# ---------------------------------------------------------------- the engine

ALLOWED = {("OP_MACRO", 1): {"macro_timeout", "macro_repeat_timeout"}, ("OP_ONESHOT", 0): {"oneshot_timeout"}, ("OP_ONESHOTM", 0): {"oneshot_timeout"},
           ("OP_OVERLOAD", 0): {"overload_tap_timeout"}}
NAMES = {"macro_timeout": "the time before a macro is repeated", "macro_repeat_timeout": "the time between repetitions"}


class Use(Seq):
    """One action, with the option fields symbolic or set. tags ('st', field path, lin) ('sched', lin)"""
    split_selects = True
    values = {}

    def seed(self, s):
        de = DescEngine(self.mod, self.fn, self.ms, self.op, self.pressed)
        self.darg, self.parg = de.roles()
        s.env[self.parg] = self.pressed
        s.mem[(("a", ("v", self.darg), (("f", "descriptor", "op"),)), 4)] = self.op
        if self.time is not None:
            ints = [a for a in self.fn.args if a.ty.k == "int"]
            s.env[ints[-1]] = self.time

    _mayalias = DescEngine._mayalias

    def fresh_load(self, s, addr, ins):
        f = cfgfield(addr)
        k = self.names.get(f)
        if k:
            self.seen.setdefault(k, ins)
            return self.values[k] if k in self.values else ("v", self.syms[k])
        p = fieldpath(addr)
        if p and p[-1] in self.preset:
            return self.preset[p[-1]]
        return ("v", ins)

    def on_store(self, s, ins, addr, v):
        p = fieldpath(addr)
        if p and any(x[0] == "keyboard" for x in p):
            self.drop(s, lambda x: x[0] == "st" and x[1] == p)
            self.put(s, ("st", p, nf(lin(v)), ins))

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is None:
            return
        self.events += 1
        if f is self.sched:
            self.put(s, ("sched", nf(lin(args[-1]))))
        elif f is self.desc or f.src in self.macros:
            self.put(s, ("act",))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.exits.append((s, t))


def macrofns(m):
    """The engine functions which execute a macro."""
    return {f.src for f in m.fns.values() if f.file == KFILE and any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "macro_execute" for i in f.insts())}


def useaction(ctx, op, name, pressed, values=None, preset=None, time=None):
    m = ctx.mod
    out = fields(ctx)[0]
    d, ev = descriptor_fn(m), event_fn(m)
    sch, calc = timers(ctx)
    mac = macrofns(m)
    stop = {d, ev, sch, calc, m.fn("kbd_process_events")}
    if not hasattr(m, "_c23g"):
        m._c23g = inline(m, d, lambda c, ch: c.file == KFILE and c not in stop and c.src not in mac and not CFG(c).loops)
        m._c23ms = ModSets(m)
    e = Use(m, m._c23g, m._c23ms)
    e.ms = m._c23ms
    e.op, e.pressed, e.sched, e.desc, e.macros = op, pressed, sch, d, mac
    e.names = {x: k for k in out for x in out[k]}
    e.syms = {k: Sym(k, 64) for k in out}
    e.values, e.preset, e.time, e.seen = values or {}, preset or {}, time, {}
    e.run()
    ctx.count("actions")
    ctx.count("states", e.npoints)
    e.timearg = [a for a in e.fn.args if a.ty.k == "int"][-1]
    return e


def only(ctx, item):
    m = ctx.mod
    name, op, pressed = item
    e = useaction(ctx, op, name, pressed)
    al = ALLOWED.get((name, pressed), set())
    for k, ins in e.seen.items():
        if k not in al:
            ctx.violation(f"meddles:{k}:{name}", f"the {'press' if pressed else 'release'} of {name} depends on the option {k}", m.where(ins))


def actions(ctx):
    fields(ctx)
    ctx.pmap(only, [(k, v, p) for k, v in sorted(ops(ctx.mod).items()) if k != "OP_NULL" for p in (1, 0)])


def plus(e, sym):
    """time + sym as a normal form"""
    return nf(({("v", e.timearg): 1, ("v", sym): 1}, 0))


def macros(ctx):
    m = ctx.mod
    O = ops(m)
    e = useaction(ctx, O["OP_MACRO"], "OP_MACRO", 1)
    ctx.need(e.exits, "OP_MACRO never returns")
    A, B = e.syms.get("macro_timeout"), e.syms.get("macro_repeat_timeout")
    due, rep = set(), set()
    for s, t in e.exits:
        st = {x[1]: (x[2], x[3]) for x in e.get(s, "st")}
        d = {p for p, (v, i) in st.items() if v == plus(e, A)}
        r = {p for p, (v, i) in st.items() if v == nf(({("v", B): 1}, 0))}
        w = dict(where=m.loc(t), path=trace_str(s.trace))
        if not d:
            ctx.violation("macro-first", "the first repetition of a macro is not due macro_timeout after it was started", **w)
        if not r:
            ctx.violation("macro-interval", "the interval between repetitions of a macro is not macro_repeat_timeout", **w)
        for p, (v, i) in st.items():
            for x, n in v[0]:
                if x in (("v", A), ("v", B)) and p not in d | r:
                    ctx.violation("macro-other", f"an option of macros ends up in {p[-1][1]}", where=m.where(i), path=trace_str(s.trace))
        due |= d
        rep |= r
    if not due or not rep:
        return
    if len(due) != 1 or len(rep) != 1:
        ctx.undecide("repetition of macros", "several fields")
        return
    (D,), (R,) = due, rep
    # repetition
    g, sch, d, ev = stepfn(ctx)
    r = Repeat(m, g, ModSets(m))
    r.D, r.R, r.mac, r.macd = D, R, macrofns(m), 0
    r.desc = d
    out = fields(ctx)[0]
    r.names = {x: k for k in out for x in out[k]}
    r.B = Sym("macro_repeat_timeout", 64)
    r.run()
    r.flush(ctx)
    ctx.count("repeat_paths", len(r.exits))
    ctx.need(r.macd, "the repetition of macros was not found")


class Repeat(Seq):
    """The engine step: a repetition moves the deadline by the interval. tags ('ex', executed) ('moved',) ('due',)"""
    split_selects = True

    def fresh_load(self, s, addr, ins):
        k = self.names.get(cfgfield(addr))
        if k == "macro_repeat_timeout":
            return ("v", self.B)
        if fieldpath(addr) == self.R:
            return ("v", self.B)
        return ("v", ins)

    def times(self):
        return ("v", [a for a in self.fn.args if a.ty.k == "int"][-1])

    def on_other(self, s, ins, args, n):
        f = self.mod.fns.get(n)
        if f is None:
            return
        if f.src in self.mac:
            self.macd += 1
            self.put(s, ("ex",))
            if not any(True for x in self.get(s, "due")):
                self.report(s, ins, "early", "a macro is repeated without its time having come")

    def on_branch(self, s, t, c, want):
        if isinstance(c, tuple) and c[0] == "not":
            c, want = c[1], not want
        if isinstance(c, tuple) and c[0] == "cmp":
            p, a, b = c[1] if want else NEG[c[1]], c[2], c[3]
            for x, y, q in ((a, b, p), (b, a, SWAP[p])):
                if canon(x) == self.times() and q in ("sge", "uge", "sgt", "ugt") and isinstance(y, tuple) and self.isD(y):
                    self.put(s, ("due",))

    def isD(self, y):
        y = canon(y)
        return isinstance(y, tuple) and y[0] == "v" and isinstance(y[1], Inst) and y[1].op == "load" and tuple(ModSets(self.mod)._addr(y[1].ops[0])[1]) == self.D

    def on_store(self, s, ins, addr, v):
        if fieldpath(addr) == self.D:
            want = nf(({self.times(): 1, ("v", self.B): 1}, 0))
            if nf(lin(v)) == want:
                self.put(s, ("moved",))
            else:
                self.report(s, ins, "interval", "the next repetition of a macro is not due macro_repeat_timeout after this one")

    def on_exit(self, s, t):
        if t.op == "ret":
            self.exits.append((s, t))
            if self.get(s, "ex") and not self.get(s, "moved"):
                self.report(s, t, "norepeat", "a macro is repeated without its next repetition being due macro_repeat_timeout later")


def oneshot(ctx):
    m = ctx.mod
    O = ops(m)
    for name in ("OP_ONESHOT", "OP_ONESHOTM"):
        for v in (0, 1, 1000, 100000):
            e = useaction(ctx, O[name], name, 0, values={"oneshot_timeout": v})
            due = nf(({("v", e.timearg): 1}, v))
            some = False
            for s, t in e.exits:
                st = {x[1]: x[2] for x in e.get(s, "st")}
                pending = any(p[-1][1] == "oneshot_depth" for p in st)
                timed = [p for p, x in st.items() if x == due and v] or [p for p, x in st.items() if any(k == ("v", e.timearg) for k, n in x[0])]
                w = dict(where=m.loc(t), path=trace_str(s.trace))
                some |= pending
                if v == 0 and (timed or e.get(s, "sched")):
                    ctx.violation("oneshot-always", "a one-shot layer expires although oneshot_timeout is 0", **w)
                elif v and pending and not any(st[p] == due for p in timed):
                    ctx.violation("oneshot-never", f"a one-shot layer does not expire oneshot_timeout ({v}) after it was latched", **w)
                for p in timed:
                    if v and st[p] != due:
                        ctx.violation("oneshot-when", f"a one-shot layer expires at another time than oneshot_timeout ({v}) after it was latched", **w)
            if not some:
                ctx.undecide("one-shot expiry", "latching was not recognised")


def overload(ctx):
    m = ctx.mod
    O = ops(m)
    e = useaction(ctx, O["OP_OVERLOAD"], "OP_OVERLOAD", 1)
    start = {x[1] for s, t in e.exits for x in e.get(s, "st") if x[2] == nf(({("v", e.timearg): 1}, 0))}
    if not start:
        ctx.violation("overload-start", "the moment an overloaded key is pressed is not remembered", where=(KFILE, descriptor_fn(m).src))
        return
    for s, t in e.exits:
        if not any(x[1] in start and x[2] == nf(({("v", e.timearg): 1}, 0)) for x in e.get(s, "st")):
            ctx.violation("overload-start", "the moment an overloaded key is pressed is not remembered on a path", where=m.loc(t), path=trace_str(s.trace))
    taps = {}
    for T in (0, 1, 200, 70000):
        for held in (0, 1, 199, 200, 201, 69999, 70000, 100000):
            e = useaction(ctx, O["OP_OVERLOAD"], "OP_OVERLOAD", 0, values={"overload_tap_timeout": T}, preset={p[-1]: 1000000 for p in start}, time=1000000 + held)
            acts = {bool(e.get(s, "act")) for s, t in e.exits}
            where = next((m.loc(t) for s, t in e.exits), None)
            if T == 0 or held < T:
                if True not in acts:
                    ctx.violation("overload-tap", f"an overloaded key released after {held} ms does not tap with overload_tap_timeout {T}", where=where)
            elif True in acts:
                ctx.violation("overload-hold", f"an overloaded key held for {held} ms taps in spite of overload_tap_timeout {T}", where=where)


# ---------------------------------------------------------------- chords

class Strike(Seq):
    """The first key of a chord: what the engine waits for."""
    split_selects = True

    def seed(self, s):
        k = next(a for a in self.fn.args if a.ty.k == "ptr")
        s.mem[(("a", ("v", k), self.statepath), 4)] = self.state
        c, p, self.t = [a for a in self.fn.args if a.ty.k == "int"][:3]
        s.env[c], s.env[p] = 30, 1

    def fresh_load(self, s, addr, ins):
        k = self.names.get(cfgfield(addr))
        if k in self.values:
            return self.values[k]
        return ("v", ins)

    def on_other(self, s, ins, args, n):
        if self.mod.fns.get(n) is self.sched:
            self.put(s, ("sched", nf(lin(args[-1]))))

    def on_store(self, s, ins, addr, v):
        if isinstance(addr, tuple) and addr[0] == "a" and addr[2] == self.statepath:
            self.drop(s, lambda x: x[0] == "state")
            self.put(s, ("state", self.const(s, v)))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.exits.append((s, t))


def chords(ctx):
    m = ctx.mod
    out = fields(ctx)[0]
    dl, since, sf, en = age(ctx)
    stf = ctx.need(statefield(m), "the state of a chord is not found")
    g, sch, d, ev = stepfn(ctx)
    lim = chordlimits(ctx, g, ev, d, sf, stf, en)
    owner = {x: k for k in out for x in out[k]}
    for st, opt in (("CHORD_PENDING_DISAMBIGUATION", "chord_timeout"), ("CHORD_PENDING_HOLD_TIMEOUT", "chord_hold_timeout")):
        if st not in en:
            ctx.undecide("chords", f"no state {st}")
            return
        got = {owner.get(p[-1][1]) for p in lim.get(en[st], ())}
        ctx.count("chord_states")
        if got != {opt}:
            ctx.violation(f"limit:{opt}", f"the wait that {opt} is for ends after {sorted(map(str, got)) or 'nothing'}", where=(KFILE, ev.src))
    for I, H in ((50, 0), (50, 100), (100, 50), (1, 1), (40000, 70000)):
        e = Strike(m, g, ModSets(m))
        e.names, e.values = owner, {"chord_timeout": I, "chord_hold_timeout": H}
        e.statepath, e.state, e.sched = tuple(("f",) + x for x in stf), en["CHORD_INACTIVE"], sch
        e.run()
        seen = set()
        for s, t in e.exits:
            x = e.get(s, "state")
            st = x[0][1] if x else None
            due = {y[1] for y in e.get(s, "sched")}
            w = dict(where=m.loc(t), path=trace_str(s.trace))
            seen.add(st)
            ctx.count("chord_paths")
            at = lambda n: any(y[1] == n and len(y[0]) == 1 and y[0][0][1] == 1 for y in due)
            if st == en["CHORD_PENDING_DISAMBIGUATION"] and not at(I):
                ctx.violation("chord-wait", f"the next key of a chord is not awaited for chord_timeout ({I})", **w)
            if st == en["CHORD_PENDING_HOLD_TIMEOUT"]:
                if not H:
                    ctx.violation("chord-hold0", "a chord has to be held although chord_hold_timeout is 0", **w)
                elif not at(H):
                    ctx.violation("chord-hold", f"a chord is not awaited to be held for chord_hold_timeout ({H})", **w)
        if en["CHORD_PENDING_DISAMBIGUATION"] not in seen:
            ctx.violation("chord-none", "no second key of a chord is ever awaited", where=(KFILE, ev.src))
        if H and en["CHORD_PENDING_HOLD_TIMEOUT"] not in seen:
            ctx.violation("chord-nohold", "a chord is never required to be held in spite of chord_hold_timeout", where=(KFILE, ev.src))


# ---------------------------------------------------------------- modifier guard

class Guard(Seq):
    def setup(self, names, value, code, kf):
        self.names, self.value, self.code, self.kf, self.got = names, value, code, kf, []
        return self

    def seed(self, s):
        ints = [a for a in self.fn.args if a.ty.k == "int"]
        s.env[ints[0]] = self.code

    def fresh_load(self, s, addr, ins):
        if self.names.get(cfgfield(addr)) == "disable_modifier_guard":
            return self.value
        return ("v", ins)

    def initial(self):
        return frozenset([("o", ())])

    def on_other(self, s, ins, args, n):
        if self.mod.fns.get(n) is self.kf:
            o = next(iter(s.auto))[1]
            s.auto = frozenset([("o", o + ((self.const(s, args[1]), self.const(s, args[2])),))])

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((next(iter(s.auto))[1], s, t))


def loaders(m, fld):
    """The functions that read a configuration field, outside of the configuration reader."""
    ms = ModSets(m)
    return [f for f in m.fns.values() if f.file != CFILE and any(i.op == "load" and ms._addr(i.ops[0])[1][-1:] == [("config", fld)] for i in f.insts())]


def one(ctx, out, k):
    sets = out.get(k, set())
    if len(sets) != 1:
        return None
    return next(iter(sets))


def guard(ctx):
    m = ctx.mod
    out = fields(ctx)[0]
    k = "disable_modifier_guard"
    fld = one(ctx, out, k)
    if fld is None:
        return
    fs = loaders(m, fld)
    if not fs:
        ctx.violation(f"idle:{k}", f"the option {k} has no effect: its field {fld} is never read", where=(CFILE, fields(ctx)[4].src))
        return
    kf = key_fn(m)
    ctx.need(kf is not None, "the function that sends keys was not found")
    f = fs[0]
    while len([a for a in f.args if a.ty.k == "int"]) != 1 or not any(i.op == "call" and isinstance(i.callee, GRef) and m.fns.get(i.callee.name) is kf
                                                                   for i in inline(m, f, lambda c, ch: c.file == KFILE and c is not kf).insts()):
        c = [x for x, i in callers(m, f.src)]
        if len({x.name for x in c}) != 1 or c[0] is f:
            ctx.undecide(k, "the function that releases a modifier was not found")
            return
        f = c[0]
    if len(fs) != 1:
        ctx.undecide(k, "it is read in several functions")
        return
    g = inline(m, f, lambda c, ch: c.file == KFILE and c is not kf)
    ms = ModSets(m)
    special = {m.macro(x) for x in ("KEYD_LEFTMETA", "KEYD_LEFTALT", "KEYD_RIGHTALT")}
    plain = {m.macro(x) for x in ("KEYD_LEFTSHIFT", "KEYD_LEFTCTRL")}
    for v in (0, 1, 2, 255):
        for code in special | plain:
            e = Guard(m, g, ms).setup({x: n for n in out for x in out[n]}, v, code, kf)
            e.run()
            ctx.count("guard_runs")
            extra = False
            for o, s, t in e.got:
                w = dict(where=m.loc(t), path=trace_str(s.trace))
                other = [x for x in o if x != (code, 0)]
                extra |= bool(other)
                if v and other:
                    ctx.violation("guard-on", f"keys {other} are tapped around modifier {code} although disable_modifier_guard is set ({v})", **w)
                if (code, 0) not in o:
                    ctx.violation("guard-release", f"modifier {code} is not released with disable_modifier_guard {v}", **w)
            if not v and code in special and not extra:
                ctx.violation("guard-off", f"modifier {code} is never guarded although disable_modifier_guard is not set", where=(f.file, f.src))


# ---------------------------------------------------------------- layer indicator

class Led(Seq):
    def setup(self, names, value, active, types, mine, state):
        self.names, self.value, self.active, self.types, self.mine, self.state, self.got = names, value, active, types, mine, state, []
        return self

    def seed(self, s):
        s.env[self.fn.args[2]] = self.state
        for n, v in (("nr_listeners", 0), ("device_table_sz", 1)):
            g = next((x for x in self.mod.globals if x.split(".")[-1] == n), None)
            if g:
                s.mem[(("a", ("g", g), ()), self.mod.sizeof(self.mod.globals[g].ty))] = v

    def fresh_load(self, s, addr, ins):
        if self.names.get(cfgfield(addr)) == "layer_indicator":
            return self.value
        if not (isinstance(addr, tuple) and addr[0] == "a"):
            return ("v", ins)
        p = fieldpath(addr)
        f = p[-1] if p else None
        if f == ("config", "nr_layers"):
            return len(self.active)
        if f == ("layer", "type"):
            i = c28.index_in(addr, "layers")
            if i is not None and isinstance(i, int) and i < len(self.types):
                return self.types[i]
        if f and f[1] == "active":
            i = c28.index_in(addr, "layer_state")
            if i is not None and isinstance(i, int) and i < len(self.active):
                return self.active[i]
        if f == ("device", "data"):
            return ("v", self.fn.args[0]) if self.mine else ("v", Sym("other", 64, NONNULL))
        return ("v", ins)

    def initial(self):
        return frozenset([("o", ())])

    def on_other(self, s, ins, args, n):
        if n == "device_set_led":
            o = next(iter(s.auto))[1]
            s.auto = frozenset([("o", o + ((self.const(s, args[1]), self.const(s, args[2])),))])

    def on_branch(self, s, t, c, want):
        # two keyboards are not the same one
        x = c
        while isinstance(x, tuple) and x[0] == "not":
            x, want = x[1], not want
        if isinstance(x, tuple) and x[0] == "cmp" and x[1] in ("eq", "ne") and not self.mine:
            a, b = x[2], x[3]
            k = ("v", self.fn.args[0])
            for p, q in ((a, b), (b, a)):
                if p == k and isinstance(q, tuple) and q[0] == "v" and isinstance(q[1], Sym) and q[1].name == "other" and want == (x[1] == "eq"):
                    return False

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((next(iter(s.auto))[1], s, t))


def indicator(ctx):
    m = ctx.mod
    out = fields(ctx)[0]
    k = "layer_indicator"
    fld = one(ctx, out, k)
    if fld is None:
        return
    fs = loaders(m, fld)
    if not fs:
        ctx.violation(f"idle:{k}", f"the option {k} has no effect: its field {fld} is never read", where=(CFILE, fields(ctx)[4].src))
        return
    f = fs[0]
    while not (len(f.args) == 3 and f.args[0].ty.k == "ptr" and not callers(m, f.src)):
        c = {x for x, i in callers(m, f.src)}
        if len(c) != 1:
            break
        f = c.pop()
    if len(fs) != 1 or len(f.args) != 3 or f.file != "src/daemon.c":
        ctx.undecide(k, "the layer observer was not found")
        return
    g = inline(m, f, lambda c, ch: c.file == f.file)
    if not any(i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "device_set_led" for i in g.insts()):
        ctx.violation(f"idle:{k}", f"{k} switches no light", where=(f.file, f.src))
        return
    ms = ModSets(m)
    L, N, C = m.enum("LT_LAYOUT"), m.enum("LT_NORMAL"), m.enum("LT_COMPOSITE")
    names = {x: n for n in out for x in out[n]}
    for v in (0, 1, 255):
        for mine in (1, 0):
            for types in ((L, N, N), (L, L, N), (L, C, L)):
                for active in ((1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (0, 1, 0)):
                    want = int(any(a and t != L for a, t in list(zip(active, types))[1:]))
                    got = []
                    for st in (0, 1):
                        e = Led(m, g, ms).setup(names, v, active, types, mine, st)
                        follow(e, g, m)
                        e.run()
                        ctx.count("led_runs")
                        got += e.got
                    for o, s, t in got:
                        w = dict(where=m.loc(t), path=trace_str(s.trace))
                        if (not v or not mine) and o:
                            ctx.violation("led-on", f"a light is switched although layer_indicator is {v}" + ("" if mine else " and the device is another's"), **w)
                        elif v and mine:
                            if not o:
                                ctx.violation("led-off", f"no light is switched although layer_indicator is {v}", **w)
                            elif any(x is None for y in o for x in y):
                                ctx.undecide(k, "the light is not a constant")
                            elif o[-1] != (1, want):
                                ctx.violation("led-value", f"light {o[-1][0]} is switched {'on' if o[-1][1] else 'off'} with the layers {active} of types {types} active", **w)


# ---------------------------------------------------------------- pauses within macros

class Pause(Seq):
    """macro_execute with two entries. The order of keys and pauses is recorded."""

    def setup(self, types, timeout):
        self.types, self.timeout, self.got = types, timeout, []
        return self

    def seed(self, s):
        s.env[self.fn.args[2]] = self.timeout

    def fresh_load(self, s, addr, ins):
        f = c28.last(addr)
        if f == "sz":
            return len(self.types)
        i = c28.index_in(addr, "entries") if isinstance(addr, tuple) and addr[0] == "a" else None
        if isinstance(i, int) and i < len(self.types):
            if f == "type":
                return self.types[i]
            if f == "data":
                return 30 + i
        return ("v", ins)

    def initial(self):
        return frozenset([("o", ())])

    def note(self, s, x):
        o = next(iter(s.auto))[1]
        s.auto = frozenset([("o", o + (x,) if len(o) < 40 else o)])

    def call_usleep(self, s, ins, args):
        self.note(s, ("p", self.const(s, args[0])))

    def on_indirect(self, s, ins, args):
        self.note(s, ("k",))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((next(iter(s.auto))[1], s, t))


class PassT(Seq):
    def fresh_load(self, s, addr, ins):
        k = self.names.get(cfgfield(addr))
        return ("v", self.syms[k]) if k else ("v", ins)

    def call_macro_execute(self, s, ins, args):
        self.n += 1
        if canon(args[2]) != ("v", self.syms.get("macro_sequence_timeout")):
            self.report(s, ins, "pause-passed", "a macro is executed with another pause between keys than macro_sequence_timeout")


def pauses(ctx):
    m = ctx.mod
    out = fields(ctx)[0]
    n = 0
    for f in m.fns.values():
        if f.file == KFILE and f.src in macrofns(m):
            e = PassT(m, f, ModSets(m))
            e.names, e.syms, e.n = {x: k for k in out for x in out[k]}, {k: Sym(k, 64) for k in out}, 0
            e.run()
            e.flush(ctx)
            n += e.n
    ctx.count("macro_calls", n)
    ctx.need(n, "the engine executes no macro")
    f = ctx.need(m.fn("macro_execute"), "macro_execute not found")
    ctx.need(len(f.args) == 3, "macro_execute takes other arguments")
    g = inline(m, f, lambda c, ch: c.file == f.file)
    ms = ModSets(m)
    K, U, H, R, T = [m.enum("MACRO_" + x) for x in ("KEYSEQUENCE", "UNICODE", "HOLD", "RELEASE", "TIMEOUT")]
    for types in ((K, K), (U, K), (K, U), (H, H, R, K), (U, U)):
        for t in (0, 1, 700, 100000):
            e = Pause(m, g, ms).setup(types, t)
            follow(e, g, m)
            e.run()
            ctx.count("pause_runs")
            for o, s, x in e.got:
                w = dict(where=m.loc(x), path=trace_str(s.trace))
                ps = [y[1] for y in o if y[0] == "p"]
                if not t and ps:
                    ctx.violation("pause-zero", "a macro pauses although macro_sequence_timeout is not set", **w)
                if t and any(y != t for y in ps):
                    ctx.violation("pause-length", f"a macro pauses for {ps} instead of macro_sequence_timeout ({t} microseconds)", **w)
                if t and len([y for y in ps if y == t]) < len([y for y in types if y != R]) - 1:
                    ctx.violation("pause-none", f"a macro does not pause between its keys in spite of macro_sequence_timeout {t}", **w)
    for t in (0, 700):
        e = Pause(m, g, ms).setup((T,), t)
        follow(e, g, m)
        e.run()
        for o, s, x in e.got:
            if ("k",) in o:
                ctx.violation("pause-key", "a pause in a macro sends a key", where=m.loc(x), path=trace_str(s.trace))


# ---------------------------------------------------------------- default layout

class Layout(Seq):
    """new_keyboard: which layer is made active."""

    def setup(self, types, given):
        self.types, self.given, self.got = types, given, []
        return self

    def fresh_load(self, s, addr, ins):
        p = fieldpath(addr)
        f = p[-1] if p else None
        if f == ("config", self.fld):
            return 65 if self.given else 0
        if f == ("config", "nr_layers"):
            return len(self.types)
        if f == ("layer", "type"):
            i = c28.index_in(addr, "layers")
            if isinstance(i, int) and i < len(self.types):
                return self.types[i]
        return ("v", ins)

    def load(self, s, addr, ins):
        r = Seq.load(self, s, addr, ins)
        if isinstance(r, tuple) and r[0] == "fld":          # out of the copy of the configuration
            x = self.fresh_load(s, addr, ins)
            return x if isinstance(x, int) else r
        return r

    def lay(self, a):
        if isinstance(a, tuple) and a[0] == "a" and ("layer", "name") in fieldpath(a):
            return c28.index_in(a, "layers")

    def call_strcmp(self, s, ins, args):
        l = [self.lay(a) for a in args[:2]]
        d = [cfgfield(a) == self.fld for a in args[:2]]
        i = next((x for x in l if isinstance(x, int)), None)
        if i is None or not any(d):
            return
        res = []
        known = {x[1]: x[2] for x in self.get(s, "m")}
        for v in ((known[i],) if i in known else (1,) if 0 in known.values() else (0, 1)):
            t = s.copy()
            self.put(t, ("m", i, v), ("force", ins, v))
            res.append(t)
        return res

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                s.env[ins] = x[2]
                self.drop(s, lambda y: y == x)

    def on_store(self, s, ins, addr, v):
        p = fieldpath(addr)
        if p and p[-1][1] == "active" and any(x[1] == "layer_state" for x in p):
            i = c28.index_in(addr, "layer_state")
            self.drop(s, lambda x: x[0] == "act" and x[1] == i)
            if self.const(s, v) != 0:
                self.put(s, ("act", i))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.got.append((s, t))


def layout(ctx):
    m = ctx.mod
    out = fields(ctx)[0]
    fld = one(ctx, out, "default_layout")
    if fld is None:
        return
    f = ctx.need(m.fn("new_keyboard"), "new_keyboard not found")
    g = inline(m, f, lambda c, ch: c.file == f.file)
    ms = ModSets(m)
    L, N, C = m.enum("LT_LAYOUT"), m.enum("LT_NORMAL"), m.enum("LT_COMPOSITE")
    seen = False
    for given in (1, 0):
        for types in ((L,), (L, N, L), (L, L, N), (L, N, C), (L, L, L)):
            e = Layout(m, g, ms).setup(types, given)
            e.fld = fld
            follow(e, g, m)
            e.run()
            ctx.count("layout_runs")
            for s, t in e.got:
                hit = [x[1] for x in e.get(s, "m") if x[2] == 0]
                act = {x[1] for x in e.get(s, "act")} - {0}
                w = dict(where=m.loc(t), path=trace_str(s.trace))
                want = {i for i in hit if given and types[i] == L} - {0}
                seen |= bool(want)
                if None in act:
                    ctx.undecide("default_layout", "an unknown layer becomes active")
                elif act - want:
                    ctx.violation("layout-wrong", f"layer {sorted(act - want)} is active from the start, though default_layout does not name it", **w)
                elif want - act:
                    ctx.violation("layout-lost", "the layout named by default_layout is not active from the start", **w)
    if not seen:
        ctx.violation("layout-never", "no layout is ever found by the name in default_layout", where=(f.file, f.src))


def idle(ctx):
    """Every recognised option is read by something that runs."""
    m = ctx.mod
    out = fields(ctx)[0]
    ms = ModSets(m)
    used = set()
    for f in m.fns.values():
        if f.file == CFILE:
            continue
        for i in f.insts():
            for o in ([x for x, _ in i.incoming] if i.op == "phi" else i.ops):
                if isinstance(o, (Inst, CExpr)) or i.op == "load":
                    try:
                        p = ms._addr(o)[1]
                    except Exception:
                        continue
                    if p and p[-1][0] == "config":
                        used.add(p[-1][1])
                    for q in p:
                        if q[0] == "config":
                            used.add(q[1])
    for k, sets in sorted(out.items()):
        for x in sets:
            ctx.count("options_used")
            if x not in used:
                ctx.violation(f"idle:{k}", f"the option {k} is recognised but has no effect: its field {x} is never read", where=(CFILE, fields(ctx)[4].src))


def run(ctx):
    ctx.rule("every documented option is recognised and stored whole in a field of its own", options)
    ctx.rule("defaults are the documented ones", defaults)
    ctx.rule("no recognised option is without effect", idle)
    ctx.rule("each action consults only the options documented for it", actions)
    ctx.rule("macro_timeout and macro_repeat_timeout time the repetition of macros", macros)
    ctx.rule("macro_sequence_timeout is the pause between the keys of a macro", pauses)
    ctx.rule("oneshot_timeout expires one-shot layers, if set", oneshot)
    ctx.rule("overload_tap_timeout suppresses taps of held keys, if set", overload)
    ctx.rule("chord_timeout and chord_hold_timeout limit chords", chords)
    ctx.rule("disable_modifier_guard switches the guard, and only it", guard)
    ctx.rule("layer_indicator drives the light of the keyboard's own devices", indicator)
    ctx.rule("default_layout selects the initial layout", layout)
