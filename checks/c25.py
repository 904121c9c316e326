"""C25: includes. Path-sensitive typestate over the IR of config_parse with everything that opens files inlined. A file may be opened by the
configuration's own path, or by a path formatted as "<directory of the configuration>/<name>" or "<data directory>/<name>" where on this path the
name was searched for "." and none was found. Lines are only searched for "include " when they were read from the configuration itself; text of an
included file ends up in the buffer without passing there, and is followed by a line break before more text is added. The functions that open
configuration text do not call each other in a cycle, so inclusion ends."""
import re
from seq import *
import ir as _ir

ASSUMPTIONS = ["no symbolic link below the two directories leads out of them", "dirname() and snprintf() behave as documented"]
CFG_FILE = "src/config.c"
OPENERS = ("open", "fopen", "openat", "open64", "fopen64", "opendir")


def origin(v, seen):
    """The objects an SSA pointer can point into, walking through phis and pointer arithmetic."""
    v = strip(v)
    if v in seen:
        return set()
    seen.add(v)
    if isinstance(v, Inst) and v.op == "getelementptr":
        return origin(v.ops[0], seen)
    if isinstance(v, Inst) and v.op in ("phi", "select"):
        out = set()
        for o in ([x for x, _ in v.incoming] if v.op == "phi" else v.ops[1:]):
            out |= origin(o, seen)
        return out
    return {v}


def base(a):
    """(root, path without the last character index) of a pointer into text."""
    if isinstance(a, tuple):
        r = a[1] if a[0] == "a" else a
        if r[0] == "v" and isinstance(r[1], Inst) and r[1].op in ("phi", "select", "getelementptr"):
            o = origin(r[1], set())
            if len(o) == 1:
                x = next(iter(o))
                if isinstance(x, Inst) and x.op == "alloca":
                    return (("al", x), ())
                if isinstance(x, GRef):
                    return (("g", x.name), ())
                return (("v", x), ())
    if isinstance(a, tuple) and a[0] == "a":
        p = a[2]
        while p and p[-1][0] == "x":
            p = p[:-1]
        return (a[1], p)
    return (a, ()) if isinstance(a, tuple) else None


class Inc(Seq):
    def setup(self, path, data):
        self.path, self.data = ("v", path), data
        self.kinds = set()
        self.unknown = set()
        return self

    def frompath(self, s, a):
        return a == self.path or (isinstance(a, tuple) and ("copy", base(a)) in s.auto)

    # -- what is known about texts --
    def clobber(self, s, a):
        b = base(a)
        self.drop(s, lambda x: x[0] in ("copy", "clean", "searched", "dir", "res", "main", "inc") and len(x) > 1 and x[1] == b)

    def copied(self, s, ins, dst, src):
        fromp = self.frompath(s, src)
        res = [x for x in self.get(s, "res") if x[1] == base(src)]
        main = ("main", base(src)) in s.auto
        cl = ("clean", base(src)) in s.auto
        self.clobber(s, dst)
        if fromp:
            self.put(s, ("copy", base(dst)))
        if cl:
            self.put(s, ("clean", base(dst)))
        for x in res:
            self.put(s, ("res", base(dst), x[2]))

    def call_strcpy(self, s, ins, args):
        b = base(args[0])
        if ("main", base(args[1])) in s.auto:
            self.append(s, ins, "line")
        self.copied(s, ins, args[0], args[1])
    call_strncpy = call_strlcpy = call_memcpy = call_stpcpy = call_strcpy

    def call_strdup(self, s, ins, args):
        if self.frompath(s, args[0]):
            self.put(s, ("copy", base(("v", ins))))
        if ("clean", base(args[0])) in s.auto:
            self.put(s, ("clean", base(("v", ins))))

    def call_dirname(self, s, ins, args):
        if self.frompath(s, args[0]):
            self.put(s, ("dir", base(("v", ins))))

    def isdir(self, s, a):
        return isinstance(a, tuple) and ("dir", base(a)) in s.auto

    def isclean(self, s, a):
        return isinstance(a, tuple) and ("clean", base(a)) in s.auto

    def call_snprintf(self, s, ins, args):
        fm = strarg(self.mod, args[2])
        dst = args[0]
        if fm == "%s":
            return self.copied(s, ins, dst, args[3])
        if fm is None:
            self.clobber(s, dst)
            return
        kind = None
        if fm == "%s/%s" and len(args) >= 5:
            where = "config" if self.isdir(s, args[3]) else "data" if strarg(self.mod, args[3]) == self.data else None
            if where is None and strarg(self.mod, args[3]) is None and not self.isdir(s, args[3]):
                where = "?"
            kind = (where, args[4])
        elif fm.endswith("/%s") and "%" not in fm[:-2]:
            kind = ("data" if fm[:-3] == self.data else None, args[3])
        elif fm.startswith("%s/%s") or "%s" in fm:
            kind = (None, args[-1])
        if kind is None:
            self.clobber(s, dst)
            return
        where, name = kind
        clean = self.isclean(s, name)
        self.clobber(s, dst)
        self.put(s, ("res", base(dst), "unchecked" if not clean else "elsewhere" if where is None or where == "?" else where))

    def call_strcat(self, s, ins, args):
        bad = [x for x in self.get(s, "res") if x[1] == base(args[0])]
        name = base(args[1])
        cp = ("copy", base(args[0])) in s.auto
        if bad or cp:
            self.clobber(s, args[0])
            self.put(s, ("res", base(args[0]), "elsewhere"))

    # -- the check of the name --
    def search(self, s, ins, args, what):
        out = []
        for hit in (0, 1):
            t = s.copy()
            if not hit and what == ".":
                self.put(t, ("clean", base(args[0])))
            self.put(t, ("force", ins, 0 if not hit else None))
            out.append(t)
        return out

    def call_strstr(self, s, ins, args):
        w = strarg(self.mod, args[1])
        if w == ".":
            return self.search(s, ins, args, w)
        if w is not None and w.strip() == "include":
            self.lookfor(s, ins, args[0])
        elif w is None and self.isinclude(s, args[1]):
            self.lookfor(s, ins, args[0])

    def isinclude(self, s, a):
        r = base(a)
        if r and r[0][0] == "al" and ("incword", r) in s.auto:
            return True
        b = self.bytes(s, a)
        return b is not None and b.startswith("include")

    def bytes(self, s, a):
        """Text of a local array initialised from a constant."""
        if not (isinstance(a, tuple) and a[0] == "a"):
            return None
        ag = s.mem.get((a, "agg"))
        if ag and len(ag) > 2:
            src = ag[2]
            if isinstance(src, tuple) and src[0] == "g":
                src = ("a", src, ())
            return strarg(self.mod, src)
        return None

    def call_strncmp(self, s, ins, args):
        for a, b in ((args[0], args[1]), (args[1], args[0])):
            w = strarg(self.mod, a) or (self.bytes(s, a) or "")
            if w.startswith("include"):
                self.lookfor(s, ins, b)
    call_memcmp = call_strncmp

    def call_strchr(self, s, ins, args):
        if self.const(s, args[1]) == ord("."):
            return self.search(s, ins, args, ".")

    call_strrchr = call_strchr

    def call_strpbrk(self, s, ins, args):
        w = strarg(self.mod, args[1])
        if w is not None and "." in w:
            return self.search(s, ins, args, ".")

    def lookfor(self, s, ins, line):
        self.kinds.add("search")
        if base(line) and ("inc", base(line)) in s.auto:
            self.report(s, ins, "recursive", "text of an included file is searched for include lines")

    def after_inst(self, s, ins):
        for x in self.get(s, "force"):
            if x[1] is ins:
                if x[2] is not None:
                    s.env[ins] = x[2]
                else:
                    s.env[ins] = ("v", ins)
                    s.facts[("v", ins)] = (1, 1 << 62, frozenset())
                self.drop(s, lambda y: y == x)

        if ins.op == "load" and ins.ty.k == "int" and ins.ty.a == 8 and self.get(s, "raw"):
            a = self.val(s, ins.ops[0])
            if isinstance(a, tuple) and any(base(a) == (("g", x[2]), ()) for x in self.get(s, "at")):
                self.drop(s, lambda y: y[0] == "ch")
                self.put(s, ("ch", ("v", ins)))

    # -- files --
    def opened(self, s, ins, a):
        b = base(a)
        if self.frompath(s, a):
            self.kinds.add("own")
            return "own"
        r = [x[2] for x in self.get(s, "res") if x[1] == b]
        if not r:
            self.report(s, ins, "other", "configuration text is read from a file that is neither the configuration nor located by an include line")
            return "inc"
        for k in r:
            self.kinds.add(k)
            if k == "unchecked":
                self.report(s, ins, "unchecked", "an included file is opened although its name may contain \".\" (it can climb out of the directory or carry an extension)")
            elif k == "elsewhere":
                self.report(s, ins, "elsewhere", "an included file is opened outside the configuration's directory and the data directory")
        return "inc"

    def call_fopen(self, s, ins, args):
        k = self.opened(s, ins, args[0])
        self.put(s, ("file", ("v", ins), k))

    def call_open(self, s, ins, args):
        k = self.opened(s, ins, args[0])
        self.put(s, ("file", ("v", ins), k))
        fl = self.const(s, args[1])
        if fl is not None and fl & 3:
            self.report(s, ins, "write", "configuration text is opened for writing")
    call_open64 = call_open

    def call_fdopen(self, s, ins, args):
        for x in self.get(s, "file"):
            if x[1] == args[0]:
                self.put(s, ("file", ("v", ins), x[2]))

    def append(self, s, ins, what):
        """More text goes into the buffer."""
        if self.get(s, "raw"):
            if not self.get(s, "nl"):
                self.report(s, ins, "joined", "a line is added directly behind included text that may not end in a line break")
            self.drop(s, lambda x: x[0] in ("raw", "nl"))

    def call_fgets(self, s, ins, args):
        for x in self.get(s, "line"):
            pass
        b = base(args[0])
        self.clobber(s, args[0])
        k = {x[2] for x in self.get(s, "file") if x[1] == args[2]}
        self.put(s, ("main" if k == {"own"} else "inc", b))
    call_getline = None

    def call_read(self, s, ins, args):
        b = base(args[1])
        self.drop(s, lambda x: x[0] in ("rd", "at"))
        self.put(s, ("rd", ("v", ins)))
        if isinstance(args[1], tuple) and args[1][0] == "a" and args[1][1][0] == "g":
            p = args[1][2]
            i = p[-1][1] if p and p[-1][0] == "x" else 0
            self.put(s, ("at", i, args[1][1][1]))
        if b:
            self.drop(s, lambda x: x[0] == "main" and x[1] == b)
            self.put(s, ("inc", b))

    def on_branch(self, s, t, c, want):
        for x in self.get(s, "rd"):
            l, h, e = self.rng(s, x[1])
            if l > 0:                       # something was included
                self.put(s, ("raw",))
                self.drop(s, lambda y: y == x or y[0] in ("nl", "ch"))
            elif h <= 0:
                self.drop(s, lambda y: y == x)
        if self.get(s, "raw"):
            for x in self.get(s, "ch"):
                l, h, e = self.rng(s, x[1])
                if l == h == 10:            # the text already ends in a line break
                    self.put(s, ("nl",))
            for x in self.sizes(c):
                l, h, e = self.rng(s, x)
                if h <= 0:
                    return False            # the buffer is not empty
                if any(l >= n - 1 for n in self.room):
                    self.put(s, ("nl",))    # it is full: no line can follow

    def prepare(self):
        """The values that count the text in the buffer: whatever is connected to the place read() fills."""
        self.room, work, self.szs = set(), [], set()
        for i in self.fn.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("read", "fread"):
                g = strip(i.ops[1] if i.callee.name == "read" else i.ops[0])
                for r in origin(g, set()):
                    if isinstance(r, GRef) and r.name in self.mod.globals:
                        self.room.add(self.mod.sizeof(self.mod.globals[r.name].ty))
                while isinstance(g, Inst) and g.op == "getelementptr":
                    work += g.ops[1:]
                    g = strip(g.ops[0])
        users = {}
        for i in self.fn.insts():
            for o in ([x for x, _ in i.incoming] if i.op == "phi" else i.ops):
                users.setdefault(o, []).append(i) if isinstance(o, Inst) else None
        while work:
            v = work.pop()
            if not isinstance(v, Inst) or v in self.szs or v.op not in ("phi", "add", "sext", "zext", "trunc", "sub"):
                continue
            self.szs.add(v)
            work += [x for x, _ in v.incoming] if v.op == "phi" else list(v.ops)
            work += [u for u in users.get(v, ()) if u.op in ("phi", "sext", "zext")]

    def sizes(self, c):
        while isinstance(c, tuple) and c[0] == "not":
            c = c[1]
        if not (isinstance(c, tuple) and c[0] == "cmp"):
            return
        for x in c[2:4]:
            while isinstance(x, tuple) and x[0] in ("+", "sx", "tr"):
                x = x[1]
            if isinstance(x, tuple) and x[0] == "v" and x[1] in self.szs:
                yield x

    def on_store(self, s, ins, addr, v):
        if self.const(s, v) == 10 and self.get(s, "raw"):
            self.put(s, ("nl",))


Inc.call_getline = lambda self, s, ins, args: self.unknown.add("getline")


def cyclic(m, f):
    """A function on a call cycle through f."""
    seen, work = set(), [(f, (f.name,))]
    while work:
        g, ch = work.pop()
        for i in g.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
                if i.callee.name == f.name:
                    return ch
                if i.callee.name not in seen:
                    seen.add(i.callee.name)
                    work.append((m.fns[i.callee.name], ch + (i.callee.name,)))
    return None


def datadir(ctx):
    srcs, flags = _ir.build_flags(ctx.repo)
    for f in flags:
        r = re.match(r'-DDATA_DIR="?(.*?)"?$', f.replace("\\", ""))
        if r:
            return r.group(1)
    return None


def confine(ctx):
    m = ctx.mod
    root = ctx.need(m.fn("config_parse"), "config_parse not found")
    data = ctx.need(datadir(ctx), "the data directory is not known")
    f = inline(m, root, lambda c, ch: c.file == root.file and bool({"fopen", "open", "openat", "snprintf", "strstr"} & libcalls(m, c)) and c.src not in (
        "config_parse_string", "config_init", "config_add_entry") and "strtok" not in libcalls(m, c))
    path = [a for a in f.args if a.ty.k == "ptr"][1]
    e = Inc(m, f, ModSets(m)).setup(path, data)
    e.prepare()
    e.run()
    e.flush(ctx)
    ctx.count("states", e.npoints)
    for u in e.unknown:
        ctx.undecide("include handling", u)
    for i in f.insts():
        if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in OPENERS:
            ctx.count("open_sites")
            ctx.sample(f"{i.callee.name} at {m.loc(i)}")
    ctx.need("own" in e.kinds, "the configuration file itself is never opened")
    if not {"config", "data"} & e.kinds and not e.bad:
        ctx.need(False, "no include is ever opened")
    ctx.counts["kinds_of_paths_opened"] = len(e.kinds)


def cycles(ctx):
    m = ctx.mod
    root = m.fn("config_parse")
    names = closure(m, root)
    for g in [x for x in m.fns.values() if x.src in names and x.file == CFG_FILE]:
        if {"fopen", "open", "openat"} & {i.callee.name for i in g.insts() if i.op == "call" and isinstance(i.callee, GRef)}:
            ctx.count("opening_functions")
            c = cyclic(m, g)
            if c:
                ctx.violation("cycle", f"{g.src} can be reached from itself while a file is being included: {' > '.join(c)}", where=(g.file, g.src))


def run(ctx):
    ctx.rule("every file opened is the configuration or a checked name below one of the two directories", confine)
    ctx.rule("opening configuration text is not recursive", cycles)
