"""Obligations of memory accesses: every variable index into an array, every length handed to a routine that fills a buffer, every
string copy. Decided by the bounds prover; counters that are checked around the append rather than before it by a typestate flow."""
from bounds import *

FILL = {"read": (1, 2), "recv": (1, 2), "pread": (1, 2), "fgets": (0, 1), "snprintf": (0, 1), "vsnprintf": (0, 1), "strncpy": (0, 2), "memcpy": (0, 2),
        "memset": (0, 2), "memmove": (0, 2), "readlink": (1, 2), "getcwd": (0, 1)}


class Ob:
    def __init__(self, fn, inst, kind, name, cap, form, unit=1):
        self.fn, self.inst, self.kind, self.name, self.cap, self.form, self.unit = fn, inst, kind, name, cap, form, unit
        self.lo = self.hi = None
        self.trusted = False

    def ok(self):
        return self.hi is not None and self.hi <= self.cap and (self.lo is None or self.lo >= 0)


def nm(x):
    return ".".join(x) if isinstance(x, tuple) else str(x)


def label(p, i, k):
    fs = [f for f in p.ms._addr(i)[1] if f]
    if fs:
        return nm(fs[-1])
    r = strip(p.ms._addr(i)[0])
    return r.name if isinstance(r, GRef) else getattr(r, "var", None) or getattr(r, "name", "?")


def obligations(p, files):
    m = p.m
    for f in m.fns.values():
        if f.file not in files:
            continue
        c = p.cfg(f)
        for i in f.insts():
            if i.block not in c.n:
                continue
            if i.op == "getelementptr":
                t = i.ety
                used = uses(f, i)
                for k, o in enumerate(i.ops[2:]):
                    rt = m.resolve(t)
                    if rt.k == "struct":
                        t = rt.a[o.v]
                        continue
                    if rt.k == "arr":
                        if not isinstance(o, Const):
                            # one past the end may be pointed to, not used
                            yield Ob(f, i, "index", label(p, i, k), rt.a - (1 if used else 0), p.lin(o))
                        elif o.v >= rt.a and used and rt.a:
                            yield Ob(f, i, "index", label(p, i, k), rt.a - 1, lc(o.v))
                    t = rt.b
                if len(i.ops) == 2 and used and m.sizeof(i.ety) == 1:
                    l = p.lin(i.ops[1])
                    a = [x for x, n in l[1] if n == 1 and x[0] == "i" and x[1].op == "call" and isinstance(x[1].callee, GRef) and x[1].callee.name == "strlen" and l[0] < 0]
                    if a and len(l[1]) == 1 and p.split(strip(a[0][1].ops[0]))[0] == p.split(strip(i.ops[0]))[0]:
                        yield Ob(f, i, "before", "string", INF, l)
                elif len(i.ops) == 2 and used and isinstance(strip(i.ops[0]), Arg) and m.sizeof(i.ety) > 1:
                    r = param(p, strip(i.ops[0]))
                    if r is not None:
                        yield Ob(f, i, "index", strip(i.ops[0]).name, r // m.sizeof(i.ety) - 1, p.lin(i.ops[1]))
            elif i.op == "call" and isinstance(i.callee, GRef):
                n = i.callee.name
                if n.startswith("llvm.mem"):
                    n = n.split(".")[1]
                if n in FILL and len(i.ops) > FILL[n][1]:
                    a, b = FILL[n]
                    r = p.region(i.ops[a])
                    if r is not None and r[0]:
                        yield Ob(f, i, "size", nm(r[2]), r[0], ladd(r[1], p.lin(i.ops[b])))
                        if n in ("memcpy", "memmove"):
                            r = p.region(i.ops[1])
                            if r is not None and r[0]:
                                yield Ob(f, i, "source", nm(r[2]), r[0], ladd(r[1], p.lin(i.ops[2])))
                        if any(k < 0 for a, k in p.lin(i.ops[b])[1]):
                            yield Ob(f, i, "room", nm(r[2]), INF, p.lin(i.ops[b]))
                    elif n in ("snprintf", "read", "vsnprintf", "recv") and any(k < 0 for a, k in p.lin(i.ops[b])[1]):
                        yield Ob(f, i, "room", "buffer", INF, p.lin(i.ops[b]))
                elif n == "ioctl" and isinstance(i.ops[1], Const) and len(i.ops) > 2 and i.ops[2].ty.k == "ptr":
                    q = i.ops[1].v % (1 << 32)
                    r = p.region(i.ops[2])
                    if q >> 30 and r is not None and r[0]:
                        yield Ob(f, i, "size", nm(r[2]), r[0], ladd(r[1], lc((q >> 16) & 0x3fff)))
                elif n in ("strcpy", "strcat"):
                    r = p.region(i.ops[0])
                    if r is not None and r[0]:
                        o = Ob(f, i, "copy", nm(r[2]), r[0], r[1])
                        o.src = i.ops[1]
                        yield o


def uses(f, g):
    """Is what an address points to read or written, or the address a step to that?"""
    k = ("uses", g)
    for i in f.insts():
        if i.op == "load" and i.ops[0] is g or i.op == "store" and i.ops[1] is g:
            return True
        if i.op in ("getelementptr", "bitcast") and i.ops[0] is g and uses(f, i):
            return True
        if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name.startswith("llvm.mem") and any(o is g for o in i.ops):
            return True
        if i.op in ("store", "phi", "call", "ret", "select") and any(o is g for o in (i.ops or [])) or i.op == "phi" and any(v is g for v, q in i.incoming):
            return True
    return False


def param(p, a):
    """The least room all callers give a pointer parameter."""
    f = a.fn
    if f.name in p.taken or f.name not in p.callsites:
        return None
    out = INF
    for g, c in p.callsites[f.name]:
        r = p.region(c.ops[a.idx]) if a.idx < len(c.ops) else None
        if r is None or not r[0] or r[1][1] or not (isinstance(strip(c.ops[a.idx]), (GRef,)) or isinstance(strip(c.ops[a.idx]), Inst) and strip(c.ops[a.idx]).op in ("alloca", "getelementptr")):
            return None
        out = min(out, r[0] - r[1][0])
    return out if out != INF else None


def decide(p, o):
    """Bounds of an obligation."""
    b = o.inst.block
    p.touched = False
    if o.kind == "copy":
        # the room left, and the length in terms of what the function measured
        s = p.slen(o.src, b)
        p.budget = 0
        u = p.ub(o.form, b)
        o.hi = u + s + 1
        base, off = p.split(strip(o.src))
        for i in b.fn.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "strlen" and p.cfg(b.fn).dom(i.block, b):
                b2, o2 = p.split(strip(i.ops[0]))
                if b2 == base:
                    p.budget = 0
                    o.hi = min(o.hi, p.ub(ladd(ladd(ladd(o.form, p.lin(i)), ladd(o2, off, -1)), lc(1)), b))
        p.budget = 0
        o.lo = p.lb(o.form, b)
    else:
        p.budget = 0
        o.hi = p.ub(o.form, b)
        p.budget = 0
        o.lo = p.lb(o.form, b) if o.kind in ("index", "before", "room") else None
    o.trusted = p.touched
    return o


# ------------------------------------------------------------------ when is an unproved bound a violation
def atoms(form):
    out = []
    for a, n in form[1]:
        w = None
        while a[0] in ("z", "s"):
            w = (a[0], a[2])
            a = a[1]
        out.append((a, n, w))
    return out


def guardbound(p, o, sg=1):
    """The bound the code's own comparisons with constants set on the very value used, or None."""
    if len(o.form[1]) != 1:
        return None
    a, n = o.form[1][0]
    if n <= 0:
        return None
    best = None
    for g in p.ineqs(o.inst.block, 0):
        if g[0] == "ne" or len(g[1]) != 1 or g[1][0][0] != a:
            continue
        k = g[1][0][1]
        if k == sg:                              # a <= -g0    /   -a <= -g0
            v = (-g[0]) * sg * n + o.form[0]
            best = v if best is None else (min if sg > 0 else max)(best, v)
    return best


def external(p, a):
    """Is a value what something outside the program said?"""
    if a[0] != "i":
        return None
    v = a[1]
    if v.op == "load":
        r, fs = p.addr(v.ops[0])
        if fs and fs[-1] in p.bad:
            return "the value comes from outside (" + nm(fs[-1]) + ")"
        if isinstance(r, Inst) and r.op == "alloca" and not fs and any(
                i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in ("read", "recv", "ioctl", "fread", "sscanf", "__isoc99_sscanf") and any(strip(x) is r for x in i.ops) for i in r.block.fn.insts()):
            return "the value comes from outside"
    if v.op == "call" and isinstance(v.callee, GRef) and v.callee.name in ("atoi", "strtol", "strtoul", "strtoll", "atol"):
        return "the value is what " + v.callee.name + "() made of a text"
    return None


def web(p, v):
    """The SSA values and memory a counter lives in."""
    out, st = set(), [v]
    while st:
        x = st.pop()
        if x in out or not isinstance(x, Inst):
            continue
        out.add(x)
        if x.op == "phi":
            st += [y for y, q in x.incoming if isinstance(y, Inst)]
        elif x.op in ("add", "sub", "zext", "sext", "trunc") and isinstance(x.ops[0], Inst):
            st.append(x.ops[0])
    return out


def unlimited(p, o):
    """Why the index of an append has no limit at all, or None. A counter which is stepped after each use and which the program compares
    with nothing but itself (loops up to the counter) is not limited."""
    if len(o.form[1]) != 1:
        return None
    (a, n, w), = atoms(o.form)
    if a[0] != "i" or n != 1:
        return None
    v = a[1]
    m = p.m
    if v.op == "load":
        key = p.akey(v.ops[0])
        k = key[1][-1] if key[1] else key[0] if key[0][0] == "g" else None
        if k is None or k in p.bad:
            return None
        f = v.block.fn
        step = [i for i in p.stores.get(k, ()) if i.block.fn is f and (l := p.lin(i.ops[0]))[0] > 0 and any(x == ("i", v) or x[0] == "i" and x[1].op == "load" and p.akey(x[1].ops[0])[1][-1:] == key[1][-1:] and (
            key[1] or p.akey(x[1].ops[0])[0] == key[0]) for x, c in l[1])]
        if not step:
            return None

        def same(x):
            if not isinstance(x, Inst) or x.op != "load":
                return False
            q = p.akey(x.ops[0])
            return (q[1][-1] if q[1] else q[0]) == k
    elif v.op == "phi":
        f = v.block.fn
        ws = web(p, v)
        if not any(x.op == "add" and p.lin(x)[0] > 0 for x in ws) or not any(isinstance(y, Inst) and y in p.cfg(f).n or True for y, q in v.incoming):
            return None
        if not any(x.op == "phi" and any(isinstance(y, Inst) and y in ws and y.op in ("add", "phi") for y, q in x.incoming) for x in ws):
            return None
        k = v

        def same(x):
            return x in ws
    else:
        return None
    for g in m.fns.values():
        for i in g.insts():
            if i.op == "icmp":
                for x, z in (i.ops, i.ops[::-1]):
                    y, summed = x, False
                    while isinstance(y, Inst) and y.op in ("zext", "sext", "trunc", "add", "sub") and not same(y):
                        summed |= y.op in ("add", "sub")
                        y = y.ops[1] if y.op == "sub" and isinstance(y.ops[0], Const) else y.ops[0]
                    if isinstance(y, Inst) and same(y):
                        if isinstance(z, (Const, Zero)) and abs(getattr(z, "v", 0)) <= 1 and not summed:
                            continue
                        if v.op == "load" and isinstance(z, Inst) and not isinstance(z, Const) and loopvar(z):
                            continue            # a loop over what is there
                        return None
            elif i.op in ("urem", "srem", "and", "switch", "call", "select") and any(isinstance(x, Inst) and same(x) for x in i.ops):
                if i.op != "call" or isinstance(i.callee, GRef) and (i.callee.name in m.fns or i.callee.name.startswith(("llvm.umin", "llvm.smin"))):
                    return None
    return "nothing limits the counter, which each use advances"


def loopvar(z):
    z = strip(z)
    while isinstance(z, Inst) and z.op in ("zext", "sext", "trunc", "add"):
        z = z.ops[0]
    return isinstance(z, Inst) and z.op in ("phi", "load")


def slice_(p, v):
    """What a condition is computed from (memory is not looked through)."""
    out, st = [], [v]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, Inst) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op == "phi":
            if x.ty.k == "int" and x.ty.a == 1:
                for y, q in x.incoming:
                    st.append(y)
                    if q.insts[-1].ops:
                        st.append(q.insts[-1].ops[0])
        elif x.op not in ("load", "call", "alloca", "getelementptr"):
            st += list(x.ops)
    return out


def steps(p, x):
    """Is an SSA value a counter a loop steps?"""
    return x.op == "phi" and x.ty.k == "int" and x.ty.a > 8 and any((l := ladd(p.lin(v), p.lin(x), -1))[0] and not l[1] for v, q in x.incoming if isinstance(v, Inst))


def limiting(p, b, ws):
    """May the branch at the end of a block limit what is counted?"""
    t = b.insts[-1]
    if len(set(b.succs)) < 2 or not t.ops:
        return False
    for x in slice_(p, t.ops[0]):
        if x in ws or steps(p, x):
            if any(isinstance(y, Inst) and y.op == "icmp" and x in y.ops and isinstance((z := y.ops[1] if y.ops[0] is x else y.ops[0]), (Const, Zero)) and abs(getattr(z, "v", 0)) <= 1 for y in slice_(p, t.ops[0])) and x in ws:
                continue
            return True
        if x.op == "icmp" and x.ops[0].ty.k == "ptr" and x.pred not in ("eq", "ne"):
            return True
        if x.op == "icmp" and x.pred in ("eq", "ne") and x.ops[0].ty.k == "ptr" and all(isinstance(strip(y), Inst) and strip(y).op in ("phi", "getelementptr") for y in x.ops):
            return True
        if x.op == "icmp" and x.pred not in ("eq", "ne") and any(isinstance(y, Inst) and y.op == "load" and y.ty.k == "int" and y.ty.a > 8 for y in slice_(p, x)):
            return True
        if x.op == "load":
            a = strip(x.ops[0])
            while isinstance(a, Inst) and a.op == "getelementptr":
                if any(isinstance(o, Inst) and (o in ws or any(("i", w) in dict(p.lin(o)[1]) for w in ws)) for o in a.ops[1:]):
                    return True
                a = strip(a.ops[0])
        if x.op == "call" and (not isinstance(x.callee, GRef) or x.callee.name in p.m.fns) and any(isinstance(o, Inst) and (o in ws or any(("i", w) in dict(p.lin(o)[1]) for w in ws)) for o in x.ops):
            return True
    return False


def grows(p, o, v):
    """A way round a loop through the access that advances the counter and passes no comparison which could limit it."""
    ws = web(p, v)
    c = p.cfg(v.block.fn)
    at = o.inst.block
    for h in ws:
        if h.op != "phi" or not loopphi(p, h):
            continue
        H = h.block
        st = [(H, (H,), {})]
        n = 0
        while st and n < 4000:
            n += 1
            b, path, env = st.pop()
            if limiting(p, b, ws):
                continue
            for y in set(b.succs):
                if y is not H and (y in path or y not in c.n):
                    continue
                e = dict(env)
                for i in y.insts:
                    if i.op != "phi":
                        break
                    for val, q in i.incoming:
                        if q is b:
                            e[i] = subst(p, p.lin(val), env)
                if y is H:
                    if at in path:
                        l = ladd(e[h], p.lin(h), -1)
                        if l[0] >= 0 and (l[0] or l[1]) and all(k > 0 and a[0] == "i" and a[1].op == "call" and isinstance(a[1].callee, GRef) and a[1].callee.name in ("strlen", "read", "recv", "fread", "snprintf") for a, k in [(z[0], z[2]) if False else (unwrap(z[0]), z[1]) for z in l[1]]):
                            return True
                else:
                    st.append((y, path + (y,), e))
    return False


def unwrap(a):
    while a[0] in ("z", "s"):
        a = a[1]
    return a


def subst(p, l, env):
    out = lc(l[0])
    for a, k in l[1]:
        if a[0] == "i" and a[1] in env:
            out = ladd(out, lmul(env[a[1]], k))
        else:
            out = ladd(out, (0, ((a, k),)))
    return out


def checked(p, src, b, need=INF):
    """May a comparison on the way to a block limit the length of a text?"""
    base = p.split(strip(src))[0]

    def mine(x):
        return p.split(strip(x))[0] == base
    c = p.cfg(b.fn)
    for d in b.fn.blocks:
        if d not in c.n or d is b or not c.dom(d, b) or len(set(d.succs)) < 2 or not d.insts[-1].ops:
            continue
        for x in slice_(p, d.insts[-1].ops[0]):
            if x.op == "icmp" and not any(isinstance(z, (Const, Zero)) and abs(getattr(z, "v", 0)) <= 1 for z in x.ops):
                for y in slice_(p, x):
                    if y.op == "call" and isinstance(y.callee, GRef) and y.callee.name in ("strlen", "strnlen") and mine(y.ops[0]):
                        return True
            if x.op == "call" and (not isinstance(x.callee, GRef) or x.callee.name in p.m.fns) and any(isinstance(y, (Inst, Arg)) and y.ty.k == "ptr" and mine(y) for y in x.ops):
                if not isinstance(x.callee, GRef) or measures(p, x.callee.name):
                    return True
            if x.op == "call" and isinstance(x.callee, GRef) and x.callee.name in ("memchr", "strnlen", "strcspn", "strspn") and mine(x.ops[0]):
                return True
            if x.op == "icmp" and x.pred not in ("eq", "ne") and any(y.op in ("phi", "load") and y.ty.k == "int" and y.ty.a > 8 and not (y.op == "phi" and y.block in p.fwd(d, None)) for y in slice_(p, x)):
                k = [z.v for z in x.ops if isinstance(z, Const)]
                if not k or k[0] < need:
                    return True                     # a length the function may have made in another way
    return False


def measures(p, name, seen=()):
    f = p.m.fns[name]
    for i in f.insts():
        if i.op == "call" and isinstance(i.callee, GRef):
            if i.callee.name in ("strlen", "strnlen", "memchr"):
                return True
            if i.callee.name in p.m.fns and i.callee.name not in seen and measures(p, i.callee.name, seen + (name,)):
                return True
    return False


def origins(p, v, seen=None):
    """The pointers a pointer into a text is derived from."""
    seen = set() if seen is None else seen
    v = strip(v)
    if v in seen:
        return set()
    if isinstance(v, Inst):
        seen.add(v)
        if v.op == "getelementptr" and len(v.ops) == 2:
            return origins(p, v.ops[0], seen)
        if v.op in ("phi", "select"):
            return set().union(*[origins(p, x, seen) for x in ([y for y, q in v.incoming] if v.op == "phi" else v.ops[1:])])
        if v.op == "call" and isinstance(v.callee, GRef) and v.callee.name in ("strtok", "strtok_r", "strchr", "strrchr", "strstr"):
            if isinstance(v.ops[0], (Const, Zero)):
                return set().union(set(), *[origins(p, i.ops[0], seen) for i in v.block.fn.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == v.callee.name and not isinstance(i.ops[0], (Const, Zero))])
            return origins(p, v.ops[0], seen)
        if v.op == "load" and isinstance(r := p.addr(v.ops[0])[0], Arg):
            return set().union(set(), *[origins(p, i.ops[0], seen) for i in v.block.fn.insts() if i.op == "store" and p.addr(i.ops[1])[0] is r])
    return {v} if isinstance(v, (Inst, Arg, GRef, CExpr)) else set()


def handed(p, r, d, need):
    """How long the texts are to which functions set pointers in a local."""
    out = None
    for i in r.block.fn.insts():
        if i.op != "call" or not isinstance(i.callee, GRef) or i.callee.name not in p.m.fns:
            continue
        g = p.m.fns[i.callee.name]
        for k, x in enumerate(i.ops):
            if not isinstance(x, Inst) or p.addr(x)[0] is not r:
                continue
            for j in g.insts():
                if j.op == "store" and j.ops[0].ty.k == "ptr" and isinstance(a := p.addr(j.ops[1])[0], Arg) and a.idx == k:
                    for y in origins(p, j.ops[0]):
                        if isinstance(y, Arg) and y.fn is g:
                            n = textlen(p, i.ops[y.idx], i.block, d + 1, need)
                            if n is not None:
                                out = n if out is None else max(out, n)
    return out


def textlen(p, src, b, d=0, need=INF):
    """How long a text may be which nothing limits: a number, INF (outside text) or None (not known)."""
    q = strip(src)
    if checked(p, q, b, need):
        return None
    s = p.slen(q, b)
    if s != INF:
        return s
    if d > 6:
        return None
    base, off = p.split(q)
    bs = base[1] if base[0] == "p" else None
    if base[0] == "l":
        while isinstance(q, Inst) and q.op == "getelementptr":
            q = strip(q.ops[0])
        r, fs = p.addr(q.ops[0])
        if isinstance(r, Inst) and r.op == "alloca" and not fs:
            return handed(p, r, d, need)
        if isinstance(r, GRef) and r.name in p.m.globals and p.m.globals[r.name].const:
            return None
        if isinstance(r, Arg) and not fs and r.fn.name == "main":
            return INF
        if fs:
            sts = p.stores.get(fs[-1], ())
            if any(isinstance(strip(i.ops[0]), (Inst, Arg)) for i in sts) or not sts:
                return INF
        return None
    if isinstance(bs, Arg):
        f = bs.fn
        if f.name in p.taken or f.name not in p.callsites:
            return None
        out = None
        for g, call in p.callsites[f.name]:
            r = textlen(p, call.ops[bs.idx], call.block, d + 1, need)
            if r is not None:
                out = r if out is None else max(out, r)
        return out
    if isinstance(bs, Inst):
        if bs.op in ("phi", "select"):
            vs = [v for v, x in bs.incoming] if bs.op == "phi" else bs.ops[1:]
            rs = [textlen(p, v, b, d + 2, need) for v in vs if v is not bs]
            rs = [r for r in rs if r is not None]
            return max(rs) if rs else None
        if bs.op == "call" and isinstance(bs.callee, GRef):
            n = bs.callee.name
            if n in ("getenv", "strdup"):
                return INF
            if n in ("strtok", "strtok_r", "strchr", "strrchr", "strstr") and not isinstance(bs.ops[0], (Const, Zero)):
                return textlen(p, bs.ops[0], bs.block, d + 1, need)
    return None


def overcopy(p, o):
    """Why a copy of a text may not fit, or None."""
    b = o.inst.block
    base, off = p.split(strip(o.src))
    for i in b.fn.insts():
        if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "strlen" and p.cfg(b.fn).dom(i.block, b):
            b2, o2 = p.split(strip(i.ops[0]))
            if b2 == base:
                f = ladd(ladd(ladd(o.form, p.lin(i)), ladd(o2, off, -1)), lc(1))
                for g in p.ineqs(b, 0):
                    # the comparison is on the very sum that decides
                    if g[0] != "ne" and g[1] == f[1] and f[0] - g[0] > o.cap and o.hi == f[0] - g[0]:
                        return f"the copied text may end at {o.hi}: the comparison before it admits more than the {o.cap} of {o.name}"
    off = None
    if not o.form[1]:
        off = o.form[0]
    else:
        g = guardbound(p, o)
        if g is not None:
            off = g
        elif len(o.form[1]) == 1 and o.form[1][0][0][0] == "i" and o.hi == INF and grows(p, o, o.form[1][0][0][1]):
            return f"the copied text may end beyond the {o.cap} of {o.name}: nothing limits the counter, which each use advances"
    if off is None:
        return None
    n = textlen(p, o.src, b, 0, o.cap - off)
    if n is not None and n >= 0 and off + n + 1 > o.cap and o.hi >= off + n + 1:
        return f"the copied text may be {'of any length' if n == INF else str(n) + ' long'}, {o.name} has room for {o.cap - off - 1}: nothing compares them"
    return None


def reaches(p, l, b, hi, extra=(), seen=(), d=0):
    """Does a comparison of the code's own, the length given to an input routine, or a full table, admit exactly this value?"""
    if not l[1]:
        return l[0] == hi
    if d > 7:
        return False
    p.budget = 0
    if p.ub(l, b, 0, extra) < hi:
        return False                    # something on this way says otherwise
    gs = [g for g in p.ineqs(b, 0, extra) if g[0] != "ne"]
    for g in gs:
        if g[1] == l[1] and l[0] - g[0] == hi:
            return True
    for a, n in l[1]:
        for g in gs:
            if dict(g[1]).get(a) == 1 and n > 0 and len(g[1]) == 2 and (a, g) not in seen:
                if reaches(p, ladd(l, g, -n), b, hi, extra, seen + ((a, g),), d + 1):
                    return True
        if n == 1 and a[0] == "i":
            v = a[1]
            if v.op == "call" and isinstance(v.callee, GRef) and v.callee.name in ("read", "recv", "fread") and a not in seen:
                if reaches(p, ladd(ladd(l, p.lin(v), -1), p.lin(v.ops[2])), b, hi, extra, seen + (a,), d + 1):
                    return True
            if v.op == "load":
                k = p.akey(v.ops[0])
                f = k[1][-1] if k[1] else k[0]
                x = p.inv.get(f)
                if x is not None and x[1] != INF and any((q := p.lin(i.ops[0]))[0] == 1 and len(q[1]) == 1 for i in p.stores.get(f, ())):
                    if reaches(p, ladd(ladd(l, p.lin(v), -1), lc(x[1])), b, hi, extra, seen + (a,), d + 1):
                        return True
            if v.op == "phi" and len(l[1]) == 1 and a not in seen:
                if any(reaches(p, ladd(ladd(l, p.lin(v), -1), p.lin(x)), q, hi, tuple(p.edgeconds(q, v.block)), seen + (a,), d + 1) for x, q in v.incoming):
                    return True
            if v.op == "phi" and a not in seen and loopphi(p, v) and any(isinstance(x, Const) and x.v == 0 for x, q in v.incoming):
                # counted along with another loop variable: as often, if its condition always holds
                if any(w.op == "add" and isinstance(w.ops[1], Const) and w.ops[1].v == 1 for w in web(p, v)):
                    for i in v.block.insts:
                        if i.op != "phi":
                            break
                        if i is not v and i.ty.k == "int" and steps(p, i) and any(isinstance(x, Const) and x.v == 0 for x, q in i.incoming):
                            if reaches(p, ladd(ladd(l, p.lin(v), -1), p.lin(i)), b, hi, extra, seen + (a,), d + 1):
                                return True
    return False


def stepped(p, v, hi):
    """Does a loop advance a counter by one up to a value its own comparison sets?"""
    if v.op != "phi":
        return False
    ws = web(p, v)
    for w in ws:
        if w.op == "add" and isinstance(w.ops[1], Const) and w.ops[1].v == 1 and w.ops[0] in ws and w.ops[0].op == "phi" and loopphi(p, w.ops[0]):
            for g in p.ineqs(w.block, 0):
                if g[0] != "ne" and len(g[1]) == 1 and g[1][0] == (("i", w.ops[0]), 1) and -g[0] == hi - 1:
                    return True
    return False


def attained(p, a, lo=False):
    """The exact bound of a value that really takes every value up to it."""
    if a[0] != "i":
        return None
    v = a[1]
    if v.op == "call" and isinstance(v.callee, GRef):
        n = v.callee.name
        if n in ("read", "recv", "fread") and not lo:
            l = p.lin(v.ops[2])
            return l[0] if not l[1] else None
        if lo:
            return {"read": -1, "recv": -1, "strlen": 0, "strcspn": 0, "strspn": 0}.get(n)
    return None


def verdict(p, o):
    """None if an unproved obligation is merely not decided; otherwise why it is broken."""
    if o.kind == "room":
        return noroom(p, o)
    what = {"index": "index", "size": "end of the write", "source": "end of the read", "copy": "end of the copied text", "before": "index"}[o.kind]
    lim = o.cap
    if o.hi > lim:
        if not o.form[1] and o.kind in ("index", "size", "source"):
            return f"{what} {o.form[0]} is beyond the {lim + (o.kind == 'index')} of {o.name}"
        g = guardbound(p, o)
        if g is not None and g > lim and o.hi == g:
            return f"{what} may be {g}: the comparison before it admits more than the {lim + (o.kind == 'index')} of {o.name}"
        if o.kind == "copy":
            return overcopy(p, o)
        if o.hi < INF and reaches(p, o.form, o.inst.block, o.hi):
            return f"{what} may be {o.hi}, {o.name} holds {o.cap + (o.kind == 'index')}"
        if len(o.form[1]) == 1:
            (a, n, w), = atoms(o.form)
            x = attained(p, a)
            if n == 1 and x is not None and o.hi == o.form[0] + x:
                return f"{what} may be {o.hi}, beyond the {lim + (o.kind == 'index')} of {o.name}"
            if o.kind == "index" and o.hi < INF and a[0] == "i" and stepped(p, a[1], o.hi - o.form[0]):
                return f"{what} may be {o.hi}: the counter is advanced up to {o.hi - o.form[0]}, {o.name} has {o.cap + 1}"
            e = external(p, a)
            if e and guardbound(p, o) is None and not limited(p, o, a):
                return f"{what} is not limited: {e}"
            if o.hi == INF and n == 1 and a[0] == "i" and o.kind in ("index", "size") and grows(p, o, a[1]):
                return f"{what} of {o.name} is not limited: nothing compares the counter, which each use advances"
            if o.hi == INF and o.kind == "index":
                u = unlimited(p, o)
                if u:
                    return f"{what} into {o.name} is not limited: {u}"
    if o.lo is not None and o.lo < 0 and len(o.form[1]) == 1:
        (a, n, w), = atoms(o.form)
        x = attained(p, a, True)
        if n == 1 and x is not None and w is None and o.lo == o.form[0] + x:
            return f"{what} may be {o.lo}"
        g = guardbound(p, o, -1)
        if g is not None and g < 0 and o.lo == g:
            return f"{what} may be {g}: the comparison before it admits it"
    return None


def noroom(p, o):
    """A length that is what is left of a room: nothing compares what is used with it."""
    f = o.inst.block.fn
    neg = [a for a, n in o.form[1] if n < 0]
    if len(neg) != 1 or neg[0][0] != "i" or neg[0][1].op != "phi":
        return None
    ws = web(p, neg[0][1])
    if not any(x.op == "add" for x in ws):
        return None
    # advanced by what a filling routine says, never compared with anything
    for i in f.insts():
        if i.op == "icmp":
            for x in i.ops:
                while isinstance(x, Inst) and x.op in ("zext", "sext", "trunc") and x not in ws:
                    x = x.ops[0]
                if x in ws or isinstance(x, Inst) and any(("i", w) in dict(p.lin(x)[1]) for w in ws):
                    return None
        elif i.op in ("call", "select") and i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in p.m.fns and any(x in ws for x in i.ops):
            return None
    # read() never says more than it was given
    src = {y.callee.name for w in ws if w.op == "add" for a, n in p.lin(w)[1] if a[0] == "i" and (y := a[1]).op == "call" and isinstance(y.callee, GRef)}
    if src & {"snprintf", "vsnprintf"}:
        return "the length left is not looked at: it may have become negative"
    return None


def limited(p, o, a):
    """Is an outside value compared with anything on the way?"""
    for g in p.ineqs(o.inst.block, 0):
        for x, n in (g[1] if g[0] != "ne" else g[1][1]):
            while x[0] in ("z", "s"):
                x = x[1]
            if x == a:
                return True
    # a helper which is shown what the value lies in
    r = p.addr(a[1].ops[0])[0] if a[0] == "i" and a[1].op == "load" else None
    c = p.cfg(o.inst.block.fn)
    for d in c.n:
        if d is not o.inst.block and c.dom(d, o.inst.block) and len(set(d.succs)) > 1 and d.insts[-1].ops:
            for x in slice_(p, d.insts[-1].ops[0]):
                if x.op == "call" and isinstance(x.callee, GRef) and x.callee.name in p.m.fns and any(
                        isinstance(y, Inst) and (y is a[1] or y.ty.k == "ptr" and r is not None and p.addr(y)[0] is r) for y in x.ops):
                    return True
    return False


# ------------------------------------------------------------------ counters checked around the append
class Flow:
    """Typestate of a fill counter: at rest (whenever the functions that use it are entered or left) it is at most R, or the state field
    says the table is not in use, or the code has seen that it is full."""

    def __init__(self, p, K, arr, cap, S, R):
        self.p, self.K, self.arr, self.cap, self.S, self.R = p, K, arr, cap, S, R
        self.m = p.m
        self.T = {f for f in self.m.fns.values() if any(i.op in ("load", "store") and self.is_(i, K) for i in f.insts())}
        ch = True
        while ch:                   # helpers only these functions use
            ch = False
            for f in self.m.fns.values():
                if f not in self.T and f.name not in p.taken and f.name in p.callsites and K in p.ms.of(f)[0] and all(g in self.T for g, c in p.callsites[f.name]):
                    self.T.add(f)
                    ch = True
        self.bad, self.memo, self.n = {}, {}, 0
        self.safe = set()
        self.lastm = {}
        self.giveup = False

    def is_(self, i, k):
        fs = self.p.addr(i.ops[0 if i.op == "load" else 1])[1]
        return bool(fs) and fs[-1] == k

    def last(self, f):
        """The constant a function leaves in the state field on all paths, '=' if it never writes it, None if not known."""
        if f in self.lastm:
            return self.lastm[f]
        self.lastm[f] = None
        if self.S not in self.p.ms.of(f)[0]:
            self.lastm[f] = "="
            return "="
        inn, work, rets = {f.blocks[0]: "="}, [f.blocks[0]], set()
        while work:
            b = work.pop()
            s = inn[b]
            for i in b.insts:
                if i.op == "store" and self.is_(i, self.S):
                    s = i.ops[0].v if isinstance(i.ops[0], Const) else None
                elif i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in self.m.fns:
                    x = self.last(self.m.fns[i.callee.name])
                    if x != "=":
                        s = x
                elif i.op == "ret":
                    rets.add(s)
            for t in b.succs:
                y = s if t not in inn or inn[t] == s else None
                if t not in inn or inn[t] != y:
                    inn[t] = y
                    work.append(t)
        r = rets.pop() if len(rets) == 1 else None
        self.lastm[f] = r
        return r

    def flag(self, i, why):
        self.bad.setdefault(i, why)

    def run(self, f, s, ub, h, depth=0):
        """Outcomes {(s, ub, handled, result)} of a function entered in a state."""
        k = (f, s, ub, h)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {(s, ub, h, None)}
        outs = set()
        st = [(f.blocks[0], None, s, ub, h, frozenset())]
        seen = set(st)
        while st:
            b, pb, s, ub, h, env = st.pop()
            self.n += 1
            if self.n > 60000 or depth > 6:
                self.giveup = True
                break
            e = dict(env)
            if pb is not None:
                new = {}
                for i in b.insts:
                    if i.op != "phi":
                        break
                    if i.ty.k == "int":
                        v = next(x for x, q in i.incoming if q is pb)
                        v = v.v if isinstance(v, Const) else e.get(v)
                        new[i] = v
                for i, v in new.items():
                    e.pop(i, None)
                    if v is not None and i.ty.a <= 32:
                        e[i] = v
            cur = [(0, s, ub, h, e, {})]
            for at0, s0, ub0, h0, e0, sym0 in cur:
                s, ub, h, e, sym = s0, ub0, h0, dict(e0), dict(sym0)
                dead = False
                for at in range(at0, len(b.insts)):
                    i = b.insts[at]
                    if i.op == "load":
                        if self.is_(i, self.K):
                            sym[i] = ("q", 0)
                        elif self.S and self.is_(i, self.S):
                            sym[i] = ("s",)
                        else:
                            r = strip(self.p.ms._addr(i.ops[0])[0])
                            if ("m", r) in e and i.ty.k == "int" and self.p.addr(i.ops[0])[1][-1:] == [("descriptor", "op")]:
                                e[i] = 1
                    elif i.op in ("add", "sub") and sym.get(i.ops[0], (0,))[0] == "q" and isinstance(i.ops[1], Const):
                        sym[i] = ("q", sym[i.ops[0]][1] + i.ops[1].v * (1 if i.op == "add" else -1))
                    elif i.op in ("zext", "sext", "trunc", "freeze") and i.ops[0] in sym:
                        sym[i] = sym[i.ops[0]]
                    elif i.op in ("zext", "sext", "trunc", "freeze") and i.ops[0] in e:
                        e[i] = e[i.ops[0]]
                    elif i.op == "getelementptr":
                        x = sym.get(i.ops[-1]) if len(i.ops) > 2 else None
                        if not (x and x[0] == "q"):
                            x = next((sym[o] for o in i.ops[2:] if o in sym and sym[o][0] == "q"), None)
                        if x is not None and any(g == self.arr for g in self.p.ms._addr(i)[1]) and ub + x[1] >= self.cap:
                            self.flag(i, f"the counter may be {ub + x[1]} here, the table holds {self.cap}")
                    elif i.op == "store":
                        if self.is_(i, self.K):
                            v = i.ops[0]
                            if isinstance(v, Const):
                                ub, h = v.v, False
                            elif sym.get(v, (0,))[0] == "q":
                                ub, h = ub + sym[v][1], False
                                if ub > self.cap:
                                    self.flag(i, f"the counter may become {ub}, the table holds {self.cap}")
                                    ub = self.cap
                            else:
                                self.giveup = True
                            sym = {x: y for x, y in sym.items() if y[0] != "q"}
                        elif self.S and self.is_(i, self.S):
                            s = i.ops[0].v if isinstance(i.ops[0], Const) else None
                            sym = {x: y for x, y in sym.items() if y[0] != "s"}
                    elif i.op == "icmp":
                        for x, z, pr in ((i.ops[0], i.ops[1], i.pred), (i.ops[1], i.ops[0], SWAP[i.pred])):
                            if x in sym and sym[x][0] == "cmp":
                                if pr in ("eq", "ne") and not getattr(z, "v", 0):
                                    y = sym[x]
                                    sym[i] = y if pr == "ne" else (y[0], y[1], NEG[y[2]], y[3])
                                break
                            if x in sym and isinstance(z, (Const, Zero)):
                                sym[i] = ("cmp", sym[x], pr, getattr(z, "v", 0))
                                break
                    elif i.op == "call" and isinstance(i.callee, GRef) and i.callee.name.startswith("llvm.memcpy"):
                        # a remembered action is one: its operation is not none
                        r = strip(self.p.ms._addr(i.ops[0])[0])
                        if isinstance(r, Inst) and r.op == "alloca":
                            e.pop(("m", r), None)
                            if any(x and x[0] == self.K[0] for x in self.p.ms._addr(i.ops[1])[1]):
                                e[("m", r)] = 1
                    elif i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in self.m.fns:
                        g = self.m.fns[i.callee.name]
                        fields = self.p.ms.of(g)[0]
                        if g in self.T and g is not f:
                            for (s2, u2, h2, rv) in self.run(g, s, ub, h, depth + 1):
                                e2 = dict(e)
                                if rv is not None:
                                    e2[i] = rv
                                cur.append((at + 1, s2, u2, h2, e2, {x: y for x, y in sym.items() if not (self.K in fields and y[0] == "q")}))
                            dead = True
                            break
                        if self.K in fields:
                            if ub > self.R and not h and s not in self.safe:
                                self.flag(i, "the table may be full when other events are handled here")
                            # the callee leaves the table at rest
                            if s not in self.safe or self.S in fields:
                                s, ub, h = None if self.S in fields else s, self.R, False
                            sym = {}
                        elif self.S and self.S in fields:
                            x = self.last(g)
                            s = s if x == "=" else x
                            sym = {a: y for a, y in sym.items() if y[0] != "s"}
                    elif i.op == "ret":
                        v = i.ops[0] if i.ops else None
                        rv = v.v if isinstance(v, Const) else e.get(v)
                        c = self.condof(v, sym)
                        if rv is None and c is not None:
                            for want in (0, 1):
                                r = self.refine(c, want, s, ub, h)
                                if r is not None:
                                    outs.add((*r, want))
                        else:
                            outs.add((s, ub, h, rv))
                        dead = True
                if dead:
                    continue
                t = b.insts[-1]
                for nx in dict.fromkeys(b.succs):
                    s2, u2, h2 = s, ub, h
                    if t.op == "br" and t.ops:
                        want = t.targets[0] is nx
                        c = t.ops[0]
                        if len(t.targets) == 2 and t.targets[0] is not t.targets[1]:
                            if c in e and bool(e[c]) != want:
                                continue
                            x = self.evalc(c, e)
                            if x is not None and bool(x) != want:
                                continue
                            cc = self.condof(c, sym)
                            if cc is not None:
                                r = self.refine(cc, want, s, ub, h)
                                if r is None:
                                    continue
                                s2, u2, h2 = r
                    elif t.op == "switch" and self.S and sym.get(t.ops[0], (0,))[0] == "s":
                        vs = [v for v, y in t.cases if y is nx]
                        if s is not None:
                            if s in vs or not vs and s not in [v for v, y in t.cases] or nx is t.targets[0] and s not in [v for v, y in t.cases]:
                                pass
                            else:
                                continue
                        elif len(vs) == 1 and nx is not t.targets[0]:
                            s2 = vs[0]
                            u2 = ub if s2 not in self.safe else max(ub, self.cap)
                    x = (nx, b, s2, u2, h2, frozenset((k, v) for k, v in e.items()))
                    if x not in seen:
                        seen.add(x)
                        st.append(x)
        self.memo[k] = outs
        return outs

    def evalc(self, c, e):
        while isinstance(c, Inst) and c.op in ("zext", "trunc", "freeze"):
            c = c.ops[0]
        if isinstance(c, Inst) and c.op == "icmp" and c.ops[0] in e and isinstance(c.ops[1], Const):
            a, z = e[c.ops[0]], c.ops[1].v
            return {"eq": a == z, "ne": a != z, "sgt": a > z, "slt": a < z}.get(c.pred)
        return None

    def condof(self, c, sym):
        neg = False
        for _ in range(6):
            if c in sym and sym[c][0] == "cmp":
                x = sym[c]
                return (x, neg)
            if isinstance(c, Inst) and c.op in ("zext", "trunc", "freeze"):
                c = c.ops[0]
            elif isinstance(c, Inst) and c.op == "icmp" and c.pred in ("ne", "eq") and isinstance(c.ops[1], (Const, Zero)) and not getattr(c.ops[1], "v", 0):
                neg ^= c.pred == "eq"
                c = c.ops[0]
            elif isinstance(c, Inst) and c.op == "xor":
                neg = not neg
                c = c.ops[0]
            else:
                return None
        return None

    def refine(self, cc, want, s, ub, h):
        (_, x, pr, z), neg = cc
        want = bool(want) != neg
        if x[0] == "cmp":
            return (s, ub, h)
        pr = pr if want else NEG[pr]
        q = pr[1:] if len(pr) == 3 else pr
        if x[0] == "s":
            if q == "eq":
                if s is not None and s != z:
                    return None
                return (z, ub if z not in self.safe or s == z else max(ub, self.cap), h)
            if q == "ne" and s == z:
                return None
            return (s, ub, h)
        z -= x[1]
        if q in ("lt", "le"):
            return (s, min(ub, z - (q == "lt")), h)
        if q == "eq":
            if z > ub:
                return None
            return (s, z, h or 1 < z <= self.cap)
        if q in ("gt", "ge"):
            k = z + (q == "gt")
            if k > ub:
                return None
            return (s, ub, h or 1 < k <= self.cap)
        if q == "ne":
            return (s, ub - 1 if ub == z else ub, h)
        return (s, ub, h)

    def roots(self):
        p = self.p
        return [f for f in self.T if f.name in p.taken or any(g not in self.T for g, c in p.callsites.get(f.name, ())) or f.name not in p.callsites]

    def decide(self):
        """{} if the table is never overrun; otherwise {instruction: why}."""
        if self.S:
            vals = set()
            for f in self.T:
                for i in f.insts():
                    if i.op == "switch" and isinstance(strip(i.ops[0]), Inst) and strip(i.ops[0]).op == "load" and self.is_(strip(i.ops[0]), self.S):
                        vals |= {v for v, y in i.cases}
                    elif i.op == "icmp" and isinstance(i.ops[1], Const) and isinstance(strip(i.ops[0]), Inst) and strip(i.ops[0]).op == "load" and self.is_(strip(i.ops[0]), self.S):
                        vals.add(i.ops[1].v)
            for v in sorted(vals):
                self.bad, self.memo, self.n, self.giveup = {}, {}, 0, False
                self.safe = {v}
                ok = True
                for f in self.roots():
                    for (s, u, h, rv) in self.run(f, v, self.cap, False):
                        if u > self.R and not h and s != v:
                            ok = False
                    ok = ok and not self.bad and not self.giveup
                if ok:
                    vals = vals
                    self.good = getattr(self, "good", set()) | {v}
            self.safe = getattr(self, "good", set())
        self.bad, self.memo, self.n, self.giveup = {}, {}, 0, False
        for f in self.roots():
            for (s, u, h, rv) in self.run(f, None, self.R, False):
                if u > self.R and not h and s not in self.safe:
                    self.flag(next(i for i in f.insts() if i.op == "ret"), f"the table may be left with {u} of {self.cap} entries and not be looked at")
        return self.bad


SWAP = {"eq": "eq", "ne": "ne", "ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge", "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}


def flow(p, K, arr, cap):
    """(violations or None when not decided, what was shown)"""
    m = p.m
    T = {f for f in m.fns.values() if any(i.op in ("load", "store") and (fs := p.addr(i.ops[0 if i.op == "load" else 1])[1]) and fs[-1] == K for i in f.insts())}
    cand = []
    for f in T:
        for i in f.insts():
            o = strip(i.ops[0]) if i.op == "switch" or i.op == "icmp" and isinstance(i.ops[1], Const) else None
            if isinstance(o, Inst) and o.op == "load":
                fs = p.addr(o.ops[0])[1]
                if fs and fs[-1][0] == K[0] and fs[-1] != K and fs[-1] not in cand:
                    cand.append(fs[-1])
    best = None
    und = False
    for S in [None] + cand:
        for R in (cap - 1, cap):
            fl = Flow(p, K, arr, cap, S, R)
            bad = fl.decide()
            if fl.giveup:
                und = True
                continue
            if not bad:
                return {}, (S, R, len(fl.T), fl.n)
            if R == cap - 1 and (best is None or len(bad) < len(best)):
                best = bad
    return (None if und or best is None else best), None


# ------------------------------------------------------------------ walks through texts
def place(p, v):
    """A byte's address as a linear form."""
    off, v = lc(0), strip(v)
    while isinstance(v, Inst) and v.op == "getelementptr" and len(v.ops) == 2 and p.m.sizeof(v.ety) == 1:
        off, v = ladd(off, p.lin(v.ops[1])), strip(v.ops[0])
    if isinstance(v, Inst) and v.op == "getelementptr" and p.m.resolve(v.ety).k == "arr" and len(v.ops) == 3 and p.m.sizeof(p.m.resolve(v.ety).b) == 1:
        off, v = ladd(off, p.lin(v.ops[2])), strip(v.ops[0])
    return ladd(off, p.lin(v) if isinstance(v, (Inst, Arg)) else (0, ((("g", repr(v)), 1),)))


def byteof(p, v):
    while isinstance(v, Inst) and v.op in ("zext", "sext", "trunc", "freeze"):
        v = v.ops[0]
    if isinstance(v, Inst) and v.op == "load":
        if v.ty.k == "int" and v.ty.a == 8:
            return place(p, v.ops[0])
        a = strip(v.ops[0])
        if isinstance(a, Inst) and a.op == "getelementptr" and len(a.ops) == 2:
            return byteof(p, a.ops[1])          # the character class table
    return None


def bytefacts(p, b, extra=()):
    """(places known not to be the end of the text, places known not to be some other character) in a block"""
    nz, other = [], []
    work = list(p.edges(b)) + list(extra)
    while work:
        x = work.pop()
        if x[0] in ("eq", "in"):
            vs = [x[2]] if x[0] == "eq" else x[2]
            y = byteof(p, x[1])
            if y is not None and 0 not in vs:
                nz.append(y)
            continue
        c, want = x
        if not isinstance(c, Inst):
            continue
        if c.op in ("zext", "trunc", "freeze"):
            work.append((c.ops[0], want))
        elif c.op == "xor":
            work.append((c.ops[0], not want))
        elif c.op == "and" and want or c.op == "or" and not want:
            work += [(c.ops[0], want), (c.ops[1], want)]
        elif c.op == "select" and c.ty.a == 1:
            if want and isinstance(c.ops[2], Const) and not c.ops[2].v:
                work += [(c.ops[0], True), (c.ops[1], True)]
            elif not want and isinstance(c.ops[1], Const) and c.ops[1].v:
                work += [(c.ops[0], False), (c.ops[2], False)]
        elif c.op == "phi":
            live = [(v, q) for v, q in c.incoming if not (isinstance(v, Const) and bool(v.v) != want)]
            if len(live) == 1:
                v, q = live[0]
                if isinstance(v, Inst):
                    work.append((v, want))
                work += list(p.edges(q)) + p.edgeconds(q, c.block)
        elif c.op == "icmp" and isinstance(c.ops[1], (Const, Zero)):
            k, pr, a = getattr(c.ops[1], "v", 0), c.pred if want else NEG[c.pred], c.ops[0]
            if isinstance(a, Inst) and a.op == "and":
                a = a.ops[0]
            if isinstance(a, Inst) and a.op == "call" and isinstance(a.callee, GRef) and a.callee.name in ("isspace", "isdigit", "isalnum", "isprint"):
                a = a.ops[0]
            y = byteof(p, a)
            if y is None:
                if pr == "ne" and k == 0 and isinstance(c.ops[0], Inst) and c.ops[0].op == "zext":
                    work.append((c.ops[0], True))
                continue
            if pr == "ne" and k == 0 or pr == "eq" and k != 0 or pr in ("sge", "uge") and k > 0 or pr in ("sgt", "ugt") and k >= 0:
                nz.append(y)
            elif pr == "ne":
                other.append(y)
    return nz, other


def loopphi(p, i):
    c = p.cfg(i.block.fn)
    return any(i.block in p.fwd(q, None) and q in p.fwd(i.block, None) | {i.block} and c.dom(i.block, q) for v, q in i.incoming)


def walks(p, files):
    """(function, step, why or None): every advance of a pointer or index a loop reads a text with."""
    m = p.m
    for f in m.fns.values():
        if f.file not in files:
            continue
        c = p.cfg(f)
        done = set()
        for i in f.insts():
            if i.op != "phi" or i.block not in c.n or not loopphi(p, i):
                continue
            if i.ty.k == "ptr":
                st, seen = [(v, q) for v, q in i.incoming if c.dom(i.block, q)], set()
                while st:
                    x, q = st.pop()
                    if (x, q) in seen or not isinstance(x, Inst) or x is i:
                        continue
                    seen.add((x, q))
                    if x.op == "phi":
                        st += list(x.incoming)
                    elif x.op == "getelementptr" and len(x.ops) == 2 and m.sizeof(x.ety) == 1 and c.dom(i.block, x.block):
                        st.append((x.ops[0], x.block))
                        if isinstance(x.ops[1], Const) and x.ops[1].v >= 1 and x not in done:
                            done.add(x)
                            yield (f, x, step(p, x.block, place(p, x.ops[0]), x.ops[1].v))
            elif i.ty.k == "int" and i.ty.a >= 32:
                for v, q in i.incoming:
                    l = ladd(p.lin(v), p.lin(i), -1)
                    if l[1] or l[0] < 1 or v in done or not c.dom(i.block, q):
                        continue
                    lds = [j for j in f.insts() if j.op == "load" and j.ty.k == "int" and j.ty.a == 8 and j.block in c.n and any(a == ("i", i) and n == 1 for a, n in place(p, j.ops[0])[1])]
                    if lds:
                        done.add(v)
                        rs = {(0, place(p, j.ops[0])[1]) for j in lds}
                        why = [step(p, q, r, l[0]) for r in rs]
                        yield (f, v if isinstance(v, Inst) else i, why[0] if len(why) == 1 else None)


def step(p, b, base, k):
    nz, other = bytefacts(p, b)
    miss = [j for j in range(k) if ladd(base, lc(j)) not in nz]
    if not miss:
        return ""
    if k > 1 and miss != list(range(k)):
        return f"{k} characters are stepped over, the {['first', 'second', 'third', 'fourth'][miss[0]] if miss[0] < 4 else 'last'} may be the end of the text"
    if k == 1 and base in other:
        return "a character is looked for without looking for the end of the text"
    return None


def terminated(p, i):
    """Is what strncpy fills sure to end? ('' / why / None)"""
    f = i.block.fn
    r = p.region(i.ops[0])
    if r is None or r[1][1]:
        return None
    n = p.lin(i.ops[2])
    if not n[1] and not isinstance(strip(i.ops[1]), (Inst, Arg)) and p.slen(i.ops[1], i.block) < n[0]:
        return ""
    _, fs, key = p.akey(i.ops[0])
    for j in f.insts():
        if j.op == "store" and isinstance(j.ops[0], Const) and j.ops[0].v == 0 and j.ops[0].ty.k == "int" and j.ops[0].ty.a == 8:
            q = p.region(j.ops[1])
            if q is not None and q[2] == r[2]:
                return ""
        if j.op == "call" and isinstance(j.callee, GRef) and (j.callee.name.startswith("llvm.memset") or j.callee.name in ("memset", "strlen", "strnlen")):
            a, b = p.addr(j.ops[0])[0], p.addr(i.ops[0])[0]
            if a is b or isinstance(a, GRef) and isinstance(b, GRef) and a.name == b.name:
                return ""
    root = p.addr(i.ops[0])[0]
    if isinstance(root, GRef) and not n[1] and n[0] < r[0]:
        return ""                   # static storage starts as zeros
    if isinstance(root, Inst) and root.op == "call" and isinstance(root.callee, GRef) and root.callee.name == "calloc" and not n[1] and n[0] < r[0]:
        return ""
    return "a text as long as the limit is left without an end"


# ------------------------------------------------------------------ the check
def counter(p, o):
    """(counter field, array field) of an index which is a counter kept in memory."""
    if o.kind != "index" or len(o.form[1]) != 1:
        return None
    (a, n, w), = atoms(o.form)
    if a[0] != "i" or a[1].op != "load" or n != 1:
        return None
    fs = p.addr(a[1].ops[0])[1]
    arr = [x for x in p.ms._addr(o.inst)[1] if x]
    return (fs[-1], arr[-1]) if fs and arr and fs[-1] not in p.bad and fs[-1][0] == arr[-1][0] else None


def check(ctx, files):
    import sys
    sys.setrecursionlimit(20000)
    p = Prover(ctx.mod)
    m = ctx.mod
    obs = [decide(p, o) for o in obligations(p, files)]
    ctx.need(len(obs) > 20, "no accesses with variable bounds were found")
    seen, flows = set(), 0
    found = False
    for o in obs:
        if o.ok() or o.hi != INF:
            continue
        k = counter(p, o)
        if k is None or k in seen:
            continue
        seen.add(k)
        cap = o.cap + 1
        bad, how = flow(p, k[0], k[1], cap)
        if bad is None:
            continue
        flows += 1
        for i, why in bad.items():
            found = True
            ctx.violation(f"{nm(k[1])}:{'store' if i.op == 'store' else i.op}", f"{nm(k[0])}: {why}", m.where(i))
        if not bad:
            ctx.sample(f"{nm(k[0])}: at most {cap} at every step, at rest at most {how[1]}" + (f" unless {nm(how[0])} says the table is not in use" if how[0] else "") + f" ({how[2]} functions, {how[3]} states)")
        p.inv[k[0]] = (0, cap)
        p.reset()
        for x in obs:
            if not x.ok():
                decide(p, x)
                if counter(p, x) == k:
                    x.hi = min(x.hi, x.cap)         # decided by the flow itself
    for o in obs:
        f = o.fn
        ctx.count({"index": "variable indices", "size": "lengths given to filling routines", "source": "lengths read from buffers", "copy": "string copies", "before": "positions counted from a string's end", "room": "lengths of what is left"}[o.kind])
        if o.ok():
            ctx.count("proved within bounds")
            continue
        why = verdict(p, o)
        where = m.where(o.inst)
        if why:
            ctx.violation(f"{o.name}:{o.kind}", why, where)
        elif o.trusted:
            ctx.count("indices the parser put into actions")
        else:
            ctx.undecide(f"{o.kind} {o.name} in {f.src}", f"range {o.lo}..{o.hi}, room {o.cap}")
            ctx.count("not decided")
    for f, x, why in walks(p, files):
        ctx.count("steps through texts")
        if why:
            ctx.violation("walk:step", why, m.where(x))
        elif why is None:
            ctx.count("steps through texts not decided")
    for f in m.fns.values():
        if f.file in files:
            for i in f.insts():
                if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "strncpy" and i.block in p.cfg(f).n:
                    ctx.count("bounded copies")
                    why = terminated(p, i)
                    if why:
                        ctx.violation("strncpy:end", why, m.where(i))
    ctx.count("counters decided by typestate", flows)
    ctx.count("functions", len({o.fn for o in obs}))
    ctx.count("invariants of counters and fields", sum(1 for v in p.inv.values() if v[1] != INF))
    for o in [x for x in obs if x.ok()][:12]:
        ctx.sample(f"{o.fn.src}: {o.kind} into {o.name} is {o.lo if o.lo is not None else 0}..{o.hi}, room {o.cap}")
