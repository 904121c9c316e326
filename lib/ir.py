"""Front end: compile /repo's current sources to LLVM IR (never executed), parse the textual IR.

Lowering: clang -O0 -g for each translation unit of the shipped build (taken from `make -n`), llvm-link,
opt -passes=mem2reg.  The parser below understands the subset of IR that this produces and fails loudly
(IRError) on anything else it would need to understand.
"""
import glob, os, re, shlex, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")


class IRError(Exception):
    pass


def tool(name):
    for c in (f"/usr/lib/llvm-18/bin/{name}", f"/usr/bin/{name}-18", f"/usr/bin/{name}"):
        if os.path.exists(c):
            return c
    w = shutil.which(name)
    if not w:
        raise IRError(f"tool {name} not found")
    return w


def build_flags(repo):
    """Sources and preprocessor flags of the shipped build, from the Makefile itself."""
    env = dict(os.environ, CFLAGS="", LDFLAGS="", MAKEFLAGS="", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    out = subprocess.run(["make", "-n", "all", "CC=cc"], cwd=repo, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, text=True).stdout.replace("\\\n", " ")
    flags, srcs = [], []
    for line in out.splitlines():
        if not re.match(r"\s*cc\s", line):
            continue
        toks = shlex.split(line)[1:]
        i = 0
        while i < len(toks):
            t = toks[i]
            if t == "-o":
                i += 2
                continue
            if t.endswith(".c"):
                srcs += sorted(glob.glob(os.path.join(repo, t)))
            elif re.match(r"-[DIU]|-std=", t) and "FORTIFY" not in t:
                flags.append(t)
            i += 1
    if not srcs:
        srcs = sorted(glob.glob(repo + "/src/*.c")) + [repo + "/src/vkbd/uinput.c"]
        flags = ["-D_DEFAULT_SOURCE", "-std=c11", '-DVERSION="v"', '-DSOCKET_PATH="/var/run/keyd.socket"',
                 '-DCONFIG_DIR="/etc/keyd"', '-DDATA_DIR="/usr/local/share/keyd"']
    return srcs, flags


def lower(repo=None, srcs=None, extra=()):
    repo = repo or REPO
    s, flags = build_flags(repo)
    srcs = srcs or s
    tmp = tempfile.mkdtemp(prefix="vkeyd")
    try:
        procs, bcs = [], []
        for i, f in enumerate(srcs):
            bc = f"{tmp}/{i}.bc"
            bcs.append(bc)
            procs.append((f, subprocess.Popen(
                [tool("clang"), "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-discard-value-names",
                 "-emit-llvm", "-c", *flags, *extra, f, "-o", bc], cwd=repo, stderr=subprocess.PIPE, text=True)))
        for f, p in procs:
            _, e = p.communicate()
            if p.returncode:
                raise IRError(f"clang failed on {f}:\n{e[:2000]}")
        subprocess.run([tool("llvm-link"), *bcs, "-o", tmp + "/all.bc"], check=True)
        subprocess.run([tool("opt"), "-passes=mem2reg", "-S", tmp + "/all.bc", "-o", tmp + "/all.ll"], check=True)
        with open(tmp + "/all.ll", encoding="latin-1") as fh:
            return fh.read(), [os.path.relpath(x, repo) for x in srcs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "packed")

    def __init__(self, k, a=None, b=None, packed=False):
        self.k, self.a, self.b, self.packed = k, a, b, packed

    def __repr__(self):
        if self.k == "int":
            return f"i{self.a}"
        if self.k == "arr":
            return f"[{self.a} x {self.b}]"
        if self.k == "struct":
            return "{" + ", ".join(map(repr, self.a)) + "}"
        if self.k == "named":
            return "%" + self.a
        return self.k


PTR, VOID = Ty("ptr"), Ty("void")
_INTS = {}


def ity(n):
    if n not in _INTS:
        _INTS[n] = Ty("int", n)
    return _INTS[n]


# ------------------------------------------------------------------------------------------ values
class Const:
    __slots__ = ("v", "ty")

    def __init__(self, v, ty):
        self.v, self.ty = v, ty

    def __repr__(self):
        return str(self.v)


class Undef:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return "undef"


class FConst:
    __slots__ = ("v", "ty")

    def __init__(self, v, ty):
        self.v, self.ty = v, ty

    def __repr__(self):
        return str(self.v)


class GRef:
    """Reference to a global variable or function."""
    __slots__ = ("name", "ty")

    def __init__(self, name):
        self.name, self.ty = name, PTR

    def __repr__(self):
        return "@" + self.name


class CExpr:
    __slots__ = ("op", "ops", "ety", "ty")

    def __init__(self, op, ops, ety=None, ty=PTR):
        self.op, self.ops, self.ety, self.ty = op, ops, ety, ty

    def __repr__(self):
        return f"({self.op} {self.ops})"


class Agg:
    __slots__ = ("elems", "ty")

    def __init__(self, elems, ty):
        self.elems, self.ty = elems, ty


class Str:
    __slots__ = ("b", "ty")

    def __init__(self, b, ty):
        self.b, self.ty = b, ty

    def __repr__(self):
        return repr(self.b)


class Zero:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Arg:
    __slots__ = ("name", "ty", "fn", "idx", "var")

    def __init__(self, name, ty, fn, idx):
        self.name, self.ty, self.fn, self.idx, self.var = name, ty, fn, idx, name

    def __repr__(self):
        return "%" + self.name


class Name:
    __slots__ = ("n", "ty")

    def __init__(self, n, ty=None):
        self.n, self.ty = n, ty


class Inst:
    __slots__ = ("op", "ty", "ops", "name", "block", "dbg", "pred", "ety", "callee", "cases", "targets", "incoming",
                 "var", "fnsrc", "chain", "uid", "flags")
    _n = 0

    def __init__(self, op):
        self.op = op
        self.ty = VOID
        self.ops = []
        self.name = None
        self.block = None
        self.dbg = None
        self.pred = self.ety = self.callee = None
        self.cases = None      # switch: list of (int, block)
        self.targets = None    # br/switch/ret successors (blocks); switch: [default]+cases
        self.incoming = None   # phi: list of (value, block)
        self.var = None
        self.fnsrc = None      # original function (name) this instruction was written in
        self.chain = ()        # inlining call chain
        self.flags = ""
        Inst._n += 1
        self.uid = Inst._n

    def __repr__(self):
        return f"%{self.name}:{self.op}" if self.name is not None else f"<{self.op}#{self.uid}>"

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o


class Block:
    __slots__ = ("name", "insts", "fn", "preds", "succs", "idx")

    def __init__(self, name, fn):
        self.name, self.fn, self.insts = name, fn, []
        self.preds, self.succs, self.idx = [], [], -1

    def __repr__(self):
        return f"bb:{self.name}"

    @property
    def term(self):
        return self.insts[-1]


class Function:
    def __init__(self, name):
        self.name = name           # IR name (may carry .N suffix after linking)
        self.src = name            # source name
        self.file = None
        self.line = 0
        self.constargs = frozenset()
        self.args = []
        self.blocks = []
        self.ret = VOID
        self.vararg = False
        self.static = False

    def __repr__(self):
        return f"<fn {self.name}>"

    def insts(self):
        for b in self.blocks:
            yield from b.insts

    def finish(self):
        for i, b in enumerate(self.blocks):
            b.idx = i
            b.preds, b.succs = [], []
        for b in self.blocks:
            seen = []
            for t in (b.term.targets or ()):
                if t not in seen:
                    seen.append(t)
                    b.succs.append(t)
                    t.preds.append(b)


class Global:
    __slots__ = ("name", "ty", "init", "const", "src", "file", "fn", "external")

    def __init__(self, name):
        self.name = name
        self.ty = self.init = None
        self.const = False
        self.src = name
        self.file = self.fn = None
        self.external = False


# ------------------------------------------------------------------------------------------ parser
_tok = re.compile(r'''\s*(?:
   (c?"(?:[^"\\]|\\.)*")
 | ([%@](?:"[^"]*"|[-A-Za-z$._0-9]+))
 | (!"[^"]*"|![A-Za-z_.0-9]*)
 | (-?\d+\.\d+(?:[eE][+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | ([A-Za-z_][A-Za-z_0-9.]*)
 | (\#\d+)
 | (\.\.\.)
 | ([][(){}<>,=*|:])
)''', re.X)


def tokenize(s):
    out, pos, n = [], 0, len(s)
    m = _tok.match
    while pos < n:
        r = m(s, pos)
        if not r:
            if s[pos:].strip() == "" or s[pos:].lstrip().startswith(";"):
                break
            raise IRError(f"cannot tokenize: {s[pos:pos+80]!r}")
        out.append(r.group(r.lastindex))
        pos = r.end()
    return out


ATTRS = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext", "noalias", "returned",
         "immarg", "inreg", "nofree", "nest", "inrange"}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise IRError(f"expected {x!r} got {self.peek()!r} in {' '.join(self.t)[:300]}")
        self.i += 1

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif re.fullmatch(r"i\d+", x):
            t = ity(int(x[1:]))
        elif x in ("double", "float", "x86_fp80", "half", "fp128"):
            t = Ty(x)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", n, e)
        elif x == "{":
            t = Ty("struct", self.typelist("}"))
        elif x == "<":
            if self.accept("{"):
                t = Ty("struct", self.typelist("}"), packed=True)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vec", n, e)
        elif x.startswith("%"):
            t = Ty("named", x[1:].strip('"'))
        elif x in ("label", "metadata", "token", "opaque"):
            t = Ty(x)
        else:
            raise IRError(f"type? {x} in {' '.join(self.t)[:200]}")
        while self.peek() == "(" and t.k in ("void", "int", "ptr", "named", "double") and self._fnty():
            # function type
            d = 0
            while True:
                y = self.next()
                if y == "(":
                    d += 1
                elif y == ")":
                    d -= 1
                    if not d:
                        break
            t = Ty("fn", t)
        return t

    def _fnty(self):
        # a parenthesised type list followed by a callee: `i32 (ptr, ...) @f(`
        j, d = self.i, 0
        while j < len(self.t):
            if self.t[j] == "(":
                d += 1
            elif self.t[j] == ")":
                d -= 1
                if d == 0:
                    break
            j += 1
        nx = self.t[j + 1] if j + 1 < len(self.t) else None
        return nx is not None and (nx[0] in "%@") and self.t[self.i + 1] in ("ptr", "...", ")") or \
            (nx is not None and nx[0] in "%@" and re.fullmatch(r"i\d+|double|void", self.t[self.i + 1] or ""))

    def typelist(self, end):
        r = []
        if self.accept(end):
            return r
        while True:
            r.append(self.type())
            if self.accept(end):
                return r
            self.expect(",")

    def attrs(self):
        while True:
            x = self.peek()
            if x in ATTRS:
                self.i += 1
                if x == "inrange" and self.peek() == "(":
                    while self.next() != ")":
                        pass
            elif x in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "allocsize",
                       "memory", "range") and (x == "align" or self.peek(1) == "("):
                self.i += 1
                if self.accept("("):
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == "(") - (y == ")")
                else:
                    self.i += 1
            else:
                return

    def tval(self):
        t = self.type()
        self.attrs()
        return self.value(t)

    def value(self, t):
        x = self.next()
        c = x[0]
        if c == "%":
            return Name(x[1:].strip('"'), t)
        if c == "@":
            return GRef(x[1:].strip('"'))
        if x == "null":
            return Const(0, t)
        if x == "true":
            return Const(1, t)
        if x == "false":
            return Const(0, t)
        if x in ("undef", "poison"):
            return Undef(t)
        if x == "zeroinitializer":
            return Zero(t)
        if x.startswith('c"'):
            return Str(unescape(x[2:-1]), t)
        if re.fullmatch(r"-?\d+", x):
            if t.k == "int":
                return Const(int(x), t)
            return FConst(float(x), t)
        if t.k in ("double", "float", "x86_fp80"):
            if x.startswith("0x") and t.k == "double":
                import struct
                return FConst(struct.unpack(">d", bytes.fromhex(x[2:].zfill(16)))[0], t)
            try:
                return FConst(float(x), t)
            except ValueError:
                return FConst(x, t)
        if x in ("[", "{", "<"):
            if x == "<" and self.accept("{"):
                end = "}"
            else:
                end = {"[": "]", "{": "}", "<": ">"}[x]
            el = []
            if not self.accept(end):
                while True:
                    el.append(self.tval())
                    if self.accept(end):
                        break
                    self.expect(",")
            if x == "<" and end == "}":
                self.expect(">")
            return Agg(el, t)
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.i += 1
                if self.peek() == "(" and self.peek(-1) == "inrange":
                    while self.next() != ")":
                        pass
            self.expect("(")
            ety = self.type()
            self.expect(",")
            ops = [self.tval()]
            while self.accept(","):
                self.attrs()
                ops.append(self.tval())
            self.expect(")")
            return CExpr("getelementptr", ops, ety, t)
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            v = self.tval()
            self.expect("to")
            self.type()
            self.expect(")")
            return CExpr(x, [v], None, t)
        if x in ("sub", "add", "mul", "and", "or", "xor", "shl"):
            while self.peek() in ("nsw", "nuw"):
                self.i += 1
            self.expect("(")
            a = self.tval()
            self.expect(",")
            b = self.tval()
            self.expect(")")
            return CExpr(x, [a, b], None, t)
        raise IRError(f"value? {x} in {' '.join(self.t)[:200]}")


def unescape(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]) & 255)
            i += 1
    return bytes(out)


BINOPS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"}
CMP = {"eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"}


class Module:
    def __init__(self, text, srcs=()):
        self.types, self.globals, self.fns, self.decls = {}, {}, {}, {}
        self.md = {}
        self._mdc = {}
        self.srcs = list(srcs)
        self._parse(text)
        self._structs()

    # ---- metadata (parsed lazily from the raw line)
    def meta(self, ref):
        """Return (kind, dict) for '!123'."""
        if ref in self._mdc:
            return self._mdc[ref]
        raw = self.md.get(ref)
        r = None
        if raw is not None:
            m = re.match(r"(?:distinct )?!(\w+)\((.*)\)$", raw, re.S)
            if m:
                d = {}
                for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,]+)(?:, |$)', m.group(2)):
                    d[k] = v[1:-1] if v.startswith('"') else v
                r = (m.group(1), d)
            else:
                m = re.match(r"(?:distinct )?!\{(.*)\}$", raw, re.S)
                if m:
                    r = ("tuple", [x.strip() for x in m.group(1).split(",")] if m.group(1).strip() else [])
        self._mdc[ref] = r
        return r

    def _constargs(self, ref):
        """Indices of the parameters that are pointers to const."""
        t = self.meta(ref) if ref else None
        if not t or "types" not in t[1]:
            return frozenset()
        el = self.meta(t[1]["types"])
        out = set()
        for i, r in enumerate(el[1][1:] if el and el[0] == "tuple" else []):
            k = self.meta(r)
            while k and k[0] == "DIDerivedType" and k[1].get("tag") == "DW_TAG_typedef":
                k = self.meta(k[1].get("baseType"))
            if k and k[0] == "DIDerivedType" and k[1].get("tag") == "DW_TAG_pointer_type":
                b = self.meta(k[1].get("baseType"))
                if b and b[0] == "DIDerivedType" and b[1].get("tag") == "DW_TAG_const_type":
                    out.add(i)
        return frozenset(out)

    def loc(self, inst):
        """(file, line) of an instruction as written in the source."""
        if inst is None or inst.dbg is None:
            return ("?", 0)
        k = self.meta(inst.dbg)
        if not k or k[0] != "DILocation":
            return ("?", 0)
        line = int(k[1].get("line", 0))
        return (self.scope_file(k[1].get("scope")), line)

    def scope_file(self, s):
        while s:
            k = self.meta(s)
            if not k:
                return "?"
            if "file" in k[1] and k[1]["file"] != "null":
                f = self.meta(k[1]["file"])
                n = f[1].get("filename", "?")
                d = f[1].get("directory", "")
                if os.path.isabs(n):
                    n = os.path.relpath(n, REPO) if n.startswith(REPO) else n
                return n
            s = k[1].get("scope")
        return "?"

    def where(self, inst):
        f, l = self.loc(inst)
        return f"{f}:{l} ({inst.fnsrc or '?'})"

    # ---- top level
    def _parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        gl, fnl = [], []
        while i < n:
            l = lines[i]
            if not l or l[0] == ";":
                i += 1
                continue
            c = l[0]
            if c == "!":
                m = re.match(r"(![\w.]+) = (.*)$", l)
                if m:
                    self.md[m.group(1)] = m.group(2)
            elif c == "%":
                m = re.match(r'%("[^"]*"|[\w.$-]+) = type (.*)$', l)
                if m:
                    nm, body = m.group(1).strip('"'), m.group(2)
                    self.types[nm] = None if body == "opaque" else P(tokenize(body), self).type()
            elif c == "@":
                gl.append(l)
            elif l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                fnl.append((i, j))
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            i += 1
        for l in gl:
            self._global(l)
        for a, b in fnl:
            self._function(lines, a, b)

    def _global(self, l):
        m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', l)
        g = Global(m.group(1).strip('"'))
        rest = m.group(2)
        dbg = re.search(r", !dbg (![\d]+)", rest)
        rest = re.sub(r", (?:align \d+|!dbg ![\d]+|section \"[^\"]*\"|comdat(?:\(\$[\w.]+\))?)", "", rest)
        mm = re.match(r"((?:private|internal|external|dso_local|unnamed_addr|local_unnamed_addr|common|linkonce_odr|hidden|thread_local|weak)\s+)*(global|constant)\s+(.*)$", rest)
        if not mm:
            return
        g.const = mm.group(2) == "constant"
        g.external = bool(re.match(r"(?:.*\s)?external\s", rest[:mm.start(3)]))
        p = P(tokenize(mm.group(3)), self)
        g.ty = p.type()
        if p.peek() is not None and p.peek() != ",":
            g.init = p.value(g.ty)
        if dbg:
            k = self.meta(dbg.group(1))
            if k and k[0] == "DIGlobalVariableExpression":
                k = self.meta(k[1]["var"])
            if k:
                g.src = k[1].get("name", g.name)
                g.file = self.scope_file(k[1].get("file") and dbg.group(1)) if False else None
                s = k[1].get("scope")
                sk = self.meta(s) if s else None
                while sk and sk[0] in ("DILexicalBlock",):
                    sk = self.meta(sk[1].get("scope"))
                if sk and sk[0] == "DISubprogram":
                    g.fn = sk[1].get("name")
                f = self.meta(k[1]["file"]) if "file" in k[1] else None
                if f:
                    g.file = f[1].get("filename")
                    if os.path.isabs(g.file) and g.file.startswith(REPO):
                        g.file = os.path.relpath(g.file, REPO)
        self.globals[g.name] = g

    def _function(self, lines, a, b):
        hdr = lines[a]
        m = re.search(r'@("[^"]*"|[\w.$]+)\(', hdr)
        f = Function(m.group(1).strip('"'))
        f.static = " internal " in hdr[:m.start()]
        pre = tokenize(re.sub(r"^define\s+", "", hdr[:m.start()]))
        pre = [t for t in pre if t not in ("internal", "dso_local", "hidden", "private", "linkonce_odr", "local_unnamed_addr", "signext",
                                           "zeroext", "noundef", "noalias", "weak", "nonnull", "unnamed_addr")]
        f.ret = P(pre, self).type()
        # args
        j, d = m.end(), 1
        while d:
            d += (hdr[j] == "(") - (hdr[j] == ")")
            j += 1
        p = P(tokenize(hdr[m.end():j - 1]), self)
        vals = {}
        while p.peek() is not None:
            if p.accept("..."):
                f.vararg = True
                break
            t = p.type()
            p.attrs()
            nm = p.next()[1:].strip('"')
            ar = Arg(nm, t, f, len(f.args))
            f.args.append(ar)
            vals[nm] = ar
            p.accept(",")
        dm = re.search(r"!dbg (!\d+)", hdr[j:])
        if dm:
            k = self.meta(dm.group(1))
            if k:
                f.src = k[1].get("name", f.name)
                f.line = int(k[1].get("line", 0))
                f.file = self.scope_file(dm.group(1))
                f.constargs = self._constargs(k[1].get("type"))
        blocks = {}
        cur = None
        i = a + 1
        order = []
        while i < b:
            l = lines[i]
            i += 1
            if not l.strip():
                continue
            if l[0] != " ":
                mm = re.match(r'("[^"]*"|[\w.$-]+):', l)
                if mm:
                    nm = mm.group(1).strip('"')
                    cur = blocks.setdefault(nm, Block(nm, f))
                    order.append(cur)
                continue
            if cur is None:
                cur = blocks.setdefault("entry", Block("entry", f))
                order.append(cur)
            if l.startswith("  switch ") and l.rstrip().endswith("["):
                while not lines[i].strip().startswith("]"):
                    l += " " + lines[i].strip()
                    i += 1
                l += " " + lines[i].strip()
                i += 1
            self._inst(l, f, cur, vals, blocks)
        f.blocks = order
        f._blocks = blocks
        # resolve
        for bl in order:
            for ins in bl.insts:
                ins.ops = [self._res(o, vals, f) for o in ins.ops]
                if isinstance(ins.callee, Name):
                    ins.callee = self._res(ins.callee, vals, f)
                if ins.incoming is not None:
                    ins.incoming = [(self._res(v, vals, f), blocks[bn]) for v, bn in ins.incoming]
                if ins.targets is not None:
                    ins.targets = [blocks[x] for x in ins.targets]
                if ins.cases is not None:
                    ins.cases = [(c, blocks[x]) for c, x in ins.cases]
        # names from dbg.value / dbg.declare
        for bl in order:
            keep = []
            for ins in bl.insts:
                if ins.op == "dbg":
                    v = ins.ops[0] if ins.ops else None
                    k = self.meta(ins.pred)
                    if k and isinstance(v, (Inst, Arg)) and (v.var is None or isinstance(v, Arg)):
                        v.var = k[1].get("name", v.var)
                else:
                    keep.append(ins)
            bl.insts = keep
        # drop unreachable blocks
        self._prune(f)
        self.fns[f.name] = f

    @staticmethod
    def _prune(f):
        seen, st = {f.blocks[0]}, [f.blocks[0]]
        while st:
            x = st.pop()
            for t in x.term.targets or ():
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        f.blocks = [x for x in f.blocks if x in seen]
        for x in f.blocks:
            for ins in x.insts:
                if ins.incoming is not None:
                    ins.incoming = [(v, q) for v, q in ins.incoming if q in seen]
        f.finish()

    def _res(self, o, vals, f):
        if isinstance(o, Name):
            try:
                return vals[o.n]
            except KeyError:
                raise IRError(f"undefined %{o.n} in {f.name}")
        return o

    def _inst(self, l, f, bl, vals, blocks):
        s = l.strip()
        dbg = None
        m = re.search(r", !dbg (!\d+)", s)
        if m:
            dbg = m.group(1)
        if "@llvm.dbg." in s or s.startswith("#dbg_"):
            m = re.search(r"@llvm\.dbg\.(value|declare)\(metadata (.*?), metadata (!\d+), metadata", s)
            if m:
                ins = Inst("dbg")
                ins.pred = m.group(3)
                try:
                    v = P(tokenize(m.group(2)), self).tval()
                    if isinstance(v, Name):
                        ins.ops = [v]
                        ins.block = bl
                        bl.insts.append(ins)
                except IRError:
                    pass
            return
        s = re.sub(r", ![\w.]+ ![\d]+", "", s)
        s = re.sub(r", align \d+", "", s)
        toks = tokenize(s)
        name = None
        if len(toks) > 2 and toks[0][0] == "%" and toks[1] == "=":
            name = toks[0][1:].strip('"')
            toks = toks[2:]
        p = P(toks, self)
        op = p.next()
        ins = Inst(op)
        ins.dbg = dbg
        ins.name = name
        ins.block = bl
        ins.fnsrc = f.src
        if op in ("tail", "musttail", "notail"):
            op = p.next()
            ins.op = op
        if op == "alloca":
            ins.ety = p.type()
            ins.ty = PTR
            if p.accept(","):
                ins.ops = [p.tval()]
        elif op == "load":
            p.accept("volatile")
            ins.ty = p.type()
            p.expect(",")
            ins.ops = [p.tval()]
        elif op == "store":
            p.accept("volatile")
            v = p.tval()
            p.expect(",")
            ins.ops = [v, p.tval()]
        elif op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            ins.ety = p.type()
            p.expect(",")
            ins.ops = [p.tval()]
            while p.accept(","):
                ins.ops.append(p.tval())
            ins.ty = PTR
        elif op in ("icmp", "fcmp"):
            ins.pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            ins.ops = [a, p.value(t)]
            ins.ty = ity(1)
            ins.ety = t
        elif op in BINOPS:
            while p.peek() in ("nsw", "nuw", "exact", "fast", "disjoint"):
                ins.flags += p.next() + " "
            t = p.type()
            a = p.value(t)
            p.expect(",")
            ins.ops = [a, p.value(t)]
            ins.ty = t
        elif op == "fneg":
            t = p.type()
            ins.ops = [p.value(t)]
            ins.ty = t
        elif op in CASTS:
            p.accept("nneg")
            ins.ops = [p.tval()]
            p.expect("to")
            ins.ty = p.type()
        elif op == "select":
            c = p.tval()
            p.expect(",")
            a = p.tval()
            p.expect(",")
            ins.ops = [c, a, p.tval()]
            ins.ty = a.ty
        elif op == "br":
            if p.peek() == "label":
                p.next()
                ins.targets = [p.next()[1:].strip('"')]
            else:
                ins.ops = [p.tval()]
                p.expect(",")
                p.expect("label")
                a = p.next()[1:].strip('"')
                p.expect(",")
                p.expect("label")
                ins.targets = [a, p.next()[1:].strip('"')]
        elif op == "switch":
            ins.ops = [p.tval()]
            p.expect(",")
            p.expect("label")
            d = p.next()[1:].strip('"')
            p.expect("[")
            ins.cases = []
            while not p.accept("]"):
                c = p.tval()
                p.expect(",")
                p.expect("label")
                ins.cases.append((c.v, p.next()[1:].strip('"')))
            ins.targets = [d] + [x for _, x in ins.cases]
        elif op == "ret":
            if p.peek() != "void":
                ins.ops = [p.tval()]
            ins.targets = []
        elif op == "unreachable":
            ins.targets = []
        elif op == "phi":
            t = p.type()
            ins.ty = t
            ins.incoming = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                ins.incoming.append((v, p.next()[1:].strip('"')))
                p.expect("]")
                if not p.accept(","):
                    break
        elif op == "call":
            while p.peek() in ATTRS or p.peek() in ("fastcc", "ccc"):
                p.next()
            p.attrs()
            t = p.type()
            if t.k == "fn":
                t = t.a
            ins.ty = t
            c = p.next()
            ins.callee = GRef(c[1:].strip('"')) if c[0] == "@" else Name(c[1:].strip('"'))
            p.expect("(")
            if not p.accept(")"):
                while True:
                    if p.peek() == "metadata":
                        raise IRError("metadata operand")
                    ins.ops.append(p.tval())
                    if p.accept(")"):
                        break
                    p.expect(",")
        elif op in ("extractvalue",):
            v = p.tval()
            ins.ops = [v]
            ins.ty = ity(64)
        elif op in ("va_arg", "freeze"):
            ins.ops = [p.tval()]
            ins.ty = ins.ops[0].ty
        else:
            raise IRError(f"unsupported instruction: {s[:200]}")
        if name is not None:
            vals[name] = ins
        bl.insts.append(ins)

    # ---- struct naming
    def _structs(self):
        """LLVM struct type name -> (display name, [field names])."""
        di = {}     # C name -> meta ref
        for ref, raw in self.md.items():
            if "DICompositeType(" in raw and ("structure_type" in raw or "union_type" in raw):
                k = self.meta(ref)[1]
                if "name" in k and k.get("elements"):
                    di.setdefault(k["name"], ref)
        self.fields = {}

        def strip(ref):
            while ref:
                k = self.meta(ref)
                if not k:
                    return None
                if k[0] == "DIDerivedType" and k[1].get("tag") in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type"):
                    ref = k[1].get("baseType")
                    continue
                if k[0] == "DICompositeType" and k[1].get("tag") == "DW_TAG_array_type":
                    ref = k[1].get("baseType")
                    continue
                return ref
            return None

        def visit(tyname, ref, disp):
            if tyname in self.fields:
                return
            k = self.meta(ref)[1]
            el = self.meta(k["elements"])[1] if k.get("elements") else []
            mem = [self.meta(e)[1] for e in el]
            names = [e.get("name", f"_{i}") for i, e in enumerate(mem)]
            self.fields[tyname] = (disp, names)
            st = self.types.get(tyname)
            if st is None or st.k != "struct":
                return
            if k.get("tag") == "DW_TAG_union_type":
                return
            for i, e in enumerate(mem):
                if i >= len(st.a):
                    break
                t = st.a[i]
                while t.k == "arr":
                    t = t.b
                if t.k == "named":
                    r = strip(e.get("baseType"))
                    if r and self.meta(r)[0] == "DICompositeType":
                        visit(t.a, r, self.meta(r)[1].get("name") or f"{disp}.{names[i]}")
        for tn in self.types:
            base = re.sub(r"^(struct|union)\.", "", tn)
            base2 = re.sub(r"\.\d+$", "", base)
            for b in (base, base2):
                if b in di and not b.startswith("anon"):
                    visit(tn, di[b], b)
                    break
        # anonymous globals' element types
        for g in self.globals.values():
            t = g.ty
            while t and t.k == "arr":
                t = t.b
            if t and t.k == "named" and t.a not in self.fields:
                st = self.types.get(t.a)
                self.fields[t.a] = (f"{g.src}[]", self._gfields(g))

    def _gfields(self, g):
        for ref, raw in self.md.items():
            if raw.startswith("distinct !DIGlobalVariable(") and f'name: "{g.src}"' in raw:
                k = self.meta(ref)[1]
                r = k.get("type")
                for _ in range(6):
                    m = self.meta(r)
                    if not m:
                        break
                    if m[0] == "DICompositeType" and m[1].get("tag") == "DW_TAG_structure_type":
                        return [self.meta(e)[1].get("name") for e in self.meta(m[1]["elements"])[1]]
                    r = m[1].get("baseType")
        return []

    def field(self, tyname, idx):
        if tyname in self.fields:
            d, n = self.fields[tyname]
            if idx < len(n):
                return d, n[idx]
            return d, f"#{idx}"
        return tyname, f"#{idx}"

    # ---- layout
    def sizeof(self, t):
        return self._lay(t)[0]

    def _lay(self, t):
        if t.k == "int":
            n = max(1, (t.a + 7) // 8)
            n = 1 << (n - 1).bit_length()
            return n, min(n, 16)
        if t.k in ("ptr",):
            return 8, 8
        if t.k == "double":
            return 8, 8
        if t.k == "float":
            return 4, 4
        if t.k in ("x86_fp80", "fp128"):
            return 16, 16
        if t.k == "arr":
            s, a = self._lay(t.b)
            return s * t.a, a
        if t.k == "named":
            u = self.types[t.a]
            if u is None:
                raise IRError("opaque " + t.a)
            return self._lay(u)
        if t.k == "struct":
            off, al = 0, 1
            for e in t.a:
                s, a = self._lay(e)
                if t.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError(f"sizeof {t}")

    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.a]
        return t

    def struct(self, name):
        """The type of a C struct by name."""
        for k, (d, n) in self.fields.items():
            if d == name:
                return Ty("named", k)
        raise IRError(f"struct {name} not found")

    def structsize(self, name):
        return self.sizeof(self.struct(name))

    def fieldty(self, name, field):
        for k, (d, n) in self.fields.items():
            if d == name and field in n:
                return self.resolve(Ty("named", k)).a[n.index(field)]
        raise IRError(f"field {name}.{field} not found")

    def fieldsize(self, name, field):
        return self.sizeof(self.fieldty(name, field))

    def offset(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t.a):
            s, a = self._lay(e)
            if t.packed:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise IRError("offset")

    # ---- lookups
    def by_src(self, name, file=None):
        r = [f for f in self.fns.values() if f.src == name and (file is None or f.file == file)]
        return r

    def fn(self, name, file=None):
        r = self.by_src(name, file)
        if len(r) == 1:
            return r[0]
        return None

    def gvar(self, name, file=None):
        r = [g for g in self.globals.values() if g.src == name and (file is None or g.file == file)]
        return r[0] if len(r) == 1 else None

    def enum(self, name):
        """Value of an enumerator or integer macro of the sources."""
        if not hasattr(self, "_enums"):
            self._enums = {}
            for raw in self.md.values():
                mm = re.match(r'!DIEnumerator\(name: "(\w+)", value: (-?\d+)', raw)
                if mm:
                    self._enums[mm.group(1)] = int(mm.group(2))
        if name in self._enums:
            return self._enums[name]
        return self.macro(name)

    def macro(self, name):
        if not hasattr(self, "_macros"):
            s, flags = build_flags(REPO)
            out = subprocess.run([tool("clang"), "-E", "-dM", *flags, "-include", os.path.join(REPO, "src/keyd.h"), "-x", "c", "/dev/null"],
                                 cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
            self._macros = dict(re.findall(r"^#define (\w+) (.*)$", out, re.M))
        v = self._macros.get(name)
        if v is None:
            raise IRError(f"constant {name} not found")
        for _ in range(8):
            v = re.sub(r"\b[A-Za-z_]\w*\b", lambda k: self._macros.get(k.group(0), k.group(0)), v)
        try:
            return int(eval(re.sub(r"\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b", r"\1", v), {"__builtins__": {}}, {}))
        except Exception:
            raise IRError(f"constant {name} = {v} is not an integer")

    def macros(self, prefix):
        try:
            self.macro("\0")
        except IRError:
            pass
        out = {}
        for k in self._macros:
            if k.startswith(prefix):
                try:
                    out[k] = self.macro(k)
                except IRError:
                    pass
        return out

    def cstr(self, v):
        """C string bytes for a constant pointer operand, or None."""
        if isinstance(v, GRef):
            g = self.globals.get(v.name)
            if g and isinstance(g.init, Str) and g.const:
                return g.init.b.split(b"\0")[0]
            if g and isinstance(g.init, Zero) and g.const:
                return b""
        return None


_cached = None


def load(repo=None):
    global _cached
    if _cached is None:
        text, srcs = lower(repo)
        _cached = Module(text, srcs)
    return _cached
