"""Upper and lower bounds of integer expressions, proved from dominating guards, induction, invariants of fields and callers.

Everything is conservative: INF is "not known". Values are linear forms over atoms (SSA values; loads of the same place without a
write between are one atom). Arithmetic is taken not to wrap (sizes and counters are far from their types' limits)."""
import math
from esp import *
from cfg import CFG
from kb import strip

INF = math.inf
TRUSTED = "descriptor_arg"         # indices the parser put into actions
NOTOUCH = NOEFFECT | {"strcpy", "strcat", "sprintf", "snprintf", "vsnprintf", "strncpy", "isdigit", "isalnum", "isprint", "fgets", "fopen64", "opendir", "readdir", "closedir",
                      "strcasecmp", "strtol", "fread", "poll", "clock_gettime", "inotify_init1", "inotify_add_watch", "pthread_join", "pthread_create", "ioctl", "read", "recv"}


def lc(c):
    return (c, ())


def ladd(a, b, k=1):
    d = dict(a[1])
    for x, n in b[1]:
        d[x] = d.get(x, 0) + k * n
        if not d[x]:
            del d[x]
    return (a[0] + k * b[0], tuple(sorted(d.items(), key=lambda t: str(t[0]))))


def lmul(a, k):
    return (a[0] * k, tuple((x, n * k) for x, n in a[1])) if k else lc(0)


class Prover:
    def __init__(self, mod):
        self.m = mod
        self.ms = ModSets(mod)
        self.cf, self.pos, self.reach = {}, {}, {}
        self.inv = {}
        self.linmemo, self.canmemo, self.gmemo, self.memo = {}, {}, {}, {}
        self.hyp = {}
        self.budget = 0
        self.thr = False
        self.known, self.warmed = {}, set()
        self.callsites = {}
        self.taken = set()
        for f in mod.fns.values():
            for i in f.insts():
                if i.op == "call" and isinstance(i.callee, GRef):
                    self.callsites.setdefault(i.callee.name, []).append((f, i))
                for o in i.ops:
                    self._take(o)
        for g in mod.globals.values():
            if g.init is not None:
                self._take(g.init)
        self.fieldinv()

    def _take(self, o):
        o = strip(o)
        if isinstance(o, GRef):
            if o.name in self.m.fns:
                self.taken.add(o.name)
        elif isinstance(o, CExpr):
            for x in o.ops:
                self._take(x)
        elif isinstance(o, Agg):
            for x in o.elems:
                self._take(x)

    # -------------------------------------------------- structure
    def cfg(self, f):
        if f.name not in self.cf:
            self.cf[f.name] = CFG(f)
            for b in f.blocks:
                for k, i in enumerate(b.insts):
                    self.pos[i] = k
        return self.cf[f.name]

    def fn(self, x):
        return x.fn if isinstance(x, (Arg, Block)) else x.block.fn

    def fwd(self, b, avoid):
        """Blocks reachable from the ends of b without passing through avoid."""
        k = (b, avoid)
        if k not in self.reach:
            seen, st = set(), [t for t in b.succs]
            while st:
                x = st.pop()
                if x in seen or x is avoid:
                    continue
                seen.add(x)
                st += x.succs
            self.reach[k] = seen
        return self.reach[k]

    def between(self, a, b):
        """Instructions that may run after a and before b without a running again."""
        f = a.block.fn
        self.cfg(f)
        pa, pb = self.pos[a], self.pos[b]
        if a.block is b.block and pa < pb:
            return a.block.insts[pa + 1:pb]
        out = list(a.block.insts[pa + 1:])
        mid = self.fwd(a.block, a.block)
        for x in mid:
            if x is b.block:
                # b's block may be left and entered again
                again = b.block in self.fwd(b.block, a.block)
                out += x.insts if again else x.insts[:pb]
            elif b.block in self.fwd(x, a.block):
                out += x.insts
        return out

    def clobbers(self, i, key):
        """May an instruction change what is at an address?"""
        root, flds, tail = key
        if i.op == "store":
            r, fs = self.addr(i.ops[1])
            if flds:
                if fs:
                    return fs[-1] == flds[-1]
                return not isinstance(r, (GRef,)) and not (isinstance(r, Inst) and r.op == "alloca") and i.ops[0].ty.k == "int" and i.ops[0].ty.a > 8
            if fs:
                return False
            if root[0] == "g":
                return isinstance(r, GRef) and r.name == root[1] or isinstance(r, Inst) and r.op not in ("alloca",) and i.ops[0].ty.k == "int" and i.ops[0].ty.a > 8
            if root[0] == "al":
                return r is root[1] or not isinstance(r, GRef) and not (isinstance(r, Inst) and r.op == "alloca") and self.escapes(root[1])
            return True
        if i.op == "call":
            if not isinstance(i.callee, GRef):
                return False
            n = i.callee.name
            if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
                return False
            if n in self.m.fns:
                fields, globs, raw = self.ms.of(self.m.fns[n])
                if flds:
                    return flds[-1] in fields
                if root[0] == "g":
                    return root[1] in globs
                if root[0] == "al":
                    return any(self.ms._addr(o)[0] is root[1] for o in i.ops)
                return True
            if n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")) or n in ("memcpy", "memset", "memmove"):
                r, fs = self.ms._addr(i.ops[0])[:2]
                fs = [x for x in fs if x]
                if flds:
                    return bool(fs) and fs[-1] in flds or not fs and (isinstance(r, Inst) and r.op == "alloca" and root == ("al", r) or not isinstance(r, (GRef, Inst)))
                return root[0] == "al" and r is root[1] or root[0] == "g" and isinstance(r, GRef) and r.name == root[1]
            for o in i.ops:
                if o.ty.k == "ptr":
                    r, fs = self.ms._addr(o)[:2]
                    fs = [x for x in fs if x]
                    if fs and flds and fs[-1] in flds:
                        return n not in NOEFFECT
                    if not fs and root[0] == "al" and r is root[1] and n not in NOEFFECT:
                        return True
            return False
        return False

    def escapes(self, al):
        for i in al.block.fn.insts():
            if i.op == "store" and strip(i.ops[0]) is al:
                return True
            if i.op == "call" and any(self.ms._addr(o)[0] is al for o in i.ops if o.ty.k == "ptr"):
                return True
        return False

    def pointee(self, r):
        """The type a pointer points to, if it can be told."""
        m = self.m
        if isinstance(r, GRef):
            g = m.globals.get(r.name)
            return g.ty if g is not None else None
        if isinstance(r, Inst) and r.op == "alloca":
            return r.ety
        if isinstance(r, (Inst, Arg)):
            k = ("pt", r)
            if k not in self.linmemo:
                t = None
                for i in self.fn(r).insts():
                    if i.op == "getelementptr" and strip(i.ops[0]) is r and len(i.ops) > 2 and m.resolve(i.ety).k == "struct":
                        t = i.ety
                        break
                self.linmemo[k] = t
            return self.linmemo[k]
        return None

    def first(self, t):
        """The fields a scalar at the address of an object is in."""
        out = []
        while t is not None:
            rt = self.m.resolve(t)
            if rt.k == "struct" and rt.a:
                out.append(self.m.field(t.a if t.k == "named" else "?", 0))
                t = rt.a[0]
            elif rt.k == "arr" and self.m.resolve(rt.b).k == "struct":
                t = rt.b
            else:
                break
        return [x for x in out if x]

    def addr(self, p):
        """(root, fields) of an address; the first field of an object has the object's address."""
        r, fs = self.ms._addr(p)[:2]
        r = strip(r)
        if isinstance(r, Inst) and r.op == "call" and isinstance(r.callee, GRef):
            f = self.m.fns.get(r.callee.name)
            if f is not None:
                rets = [strip(b.insts[-1].ops[0]) for b in f.blocks if b.insts and b.insts[-1].op == "ret" and b.insts[-1].ops]
                gs = set()
                for x in rets:
                    for y in ([strip(v) for v, q in x.incoming] if isinstance(x, Inst) and x.op == "phi" else [x]):
                        gs.add(y.name if isinstance(y, GRef) else None if not isinstance(y, (Const, Zero)) else 0)
                gs.discard(0)
                if len(gs) == 1 and None not in gs:
                    r = GRef(gs.pop())
        fs = [x for x in fs if x]
        if not fs:
            t = None
            if strip(p) is strip(r) or isinstance(strip(p), Inst) and strip(p).op == "call":
                t = self.pointee(r if isinstance(r, GRef) or not isinstance(strip(p), Inst) else strip(p)) or self.pointee(r)
            elif isinstance(strip(p), (Inst, CExpr)) and strip(p).op == "getelementptr":
                o = strip(p)
                t = o.ety
                for i in o.ops[2:]:
                    rt = self.m.resolve(t)
                    t = rt.a[i.v] if rt.k == "struct" else rt.b
            fs = self.first(t)
        else:
            o = strip(p)
            if isinstance(o, (Inst, CExpr)) and o.op == "getelementptr":
                t = o.ety
                for i in o.ops[2:]:
                    rt = self.m.resolve(t)
                    t = rt.a[i.v] if rt.k == "struct" else rt.b
                if self.m.resolve(t).k == "struct":
                    fs = fs + self.first(t)
        return r, fs

    # -------------------------------------------------- linear forms
    def akey(self, p):
        """(root, fields, exact key) of an address"""
        path, o, flds = [], p, []
        for _ in range(40):
            o = strip(o)
            if isinstance(o, (Inst, CExpr)) and o.op == "getelementptr":
                t, here, hf = o.ety, [("+", self.lin(o.ops[1]), repr(o.ety))], []
                for i in o.ops[2:]:
                    rt = self.m.resolve(t)
                    if rt.k == "struct":
                        x = self.m.field(t.a if t.k == "named" else "?", i.v)
                        here.append(x)
                        hf.append(x)
                        t = rt.a[i.v]
                    else:
                        here.append(self.lin(i))
                        t = rt.b
                path, flds = here + path, hf + flds
                o = o.ops[0]
            else:
                break
        if isinstance(o, GRef):
            r = ("g", o.name)
        elif isinstance(o, Inst) and o.op == "alloca":
            r = ("al", o)
        elif isinstance(o, (Inst, Arg)):
            r = ("v", self.lin(o))
        else:
            r = ("?", repr(o))
        ar, af = self.addr(p)
        if isinstance(ar, GRef):
            r = ("g", ar.name)
        return r, af, (r, tuple(x for x in path if x != ("+", lc(0), None) and not (isinstance(x, tuple) and x and x[0] == "+" and x[1] == lc(0))))

    def canon(self, ld):
        """The earliest access of the same place whose value a load must give: ('i', load) or the linear form stored."""
        if ld in self.canmemo:
            return self.canmemo[ld]
        self.canmemo[ld] = (0, ((("i", ld), 1),))
        f = ld.block.fn
        c = self.cfg(f)
        key = self.akey(ld.ops[0])
        best = None
        for i in f.insts():
            if i is ld or i.op not in ("load", "store") or i.op == "load" and i.ty != ld.ty or i.block not in c.n or ld.block not in c.n:
                continue
            if i.op == "store" and i.ops[0].ty.k != ld.ty.k:
                continue
            k = self.akey(i.ops[0 if i.op == "load" else 1])
            if k[2] != key[2]:
                continue
            if not (c.dom(i.block, ld.block) and (i.block is not ld.block or self.pos[i] < self.pos[ld])):
                continue
            if any(self.clobbers(x, key) for x in self.between(i, ld)):
                continue
            best = i
            break
        if best is not None:
            r = self.lin(best) if best.op == "load" else self.lin(best.ops[0])
        else:
            r = self.canmemo[ld]
        self.canmemo[ld] = r
        return r

    def lin(self, v, d=0):
        if isinstance(v, Const):
            return lc(v.v)
        if isinstance(v, Zero):
            return lc(0)
        if v in self.linmemo:
            return self.linmemo[v]
        r = None
        if isinstance(v, Inst) and d < 30:
            o = v.op
            if o in ("zext", "sext"):
                x = v.ops[0]
                w = x.ty.a if x.ty.k == "int" else 64
                if w >= 32:
                    r = self.lin(x, d + 1)
                elif isinstance(x, Const):
                    r = lc(x.v % (1 << w) if o == "zext" else x.v)
                else:
                    l = self.lin(x, d + 1)
                    a = l[1][0][0] if len(l[1]) == 1 and l[1][0][1] == 1 and not l[0] else ("i", x)
                    r = (0, (((o[0], a, w), 1),))
            elif o == "trunc" and v.ty.a >= 32:
                r = self.lin(v.ops[0], d + 1)
            elif o == "trunc":
                l = self.lin(v.ops[0], d + 1)
                if len(l[1]) == 1 and not l[0] and l[1][0][1] == 1 and l[1][0][0][0] in ("z", "s") and l[1][0][0][2] == v.ty.a:
                    r = (0, ((l[1][0][0][1], 1),))
            elif o in ("add", "sub"):
                if v.ty.a >= 32:
                    r = ladd(self.lin(v.ops[0], d + 1), self.lin(v.ops[1], d + 1), 1 if o == "add" else -1)
            elif o == "mul" and v.ty.a >= 32:
                a, b = self.lin(v.ops[0], d + 1), self.lin(v.ops[1], d + 1)
                if not b[1]:
                    r = lmul(a, b[0])
                elif not a[1]:
                    r = lmul(b, a[0])
            elif o == "shl" and v.ty.a >= 32:
                b = self.lin(v.ops[1], d + 1)
                if not b[1]:
                    r = lmul(self.lin(v.ops[0], d + 1), 1 << b[0])
            elif o in ("bitcast", "ptrtoint", "inttoptr", "freeze"):
                r = self.lin(v.ops[0], d + 1)
            elif o == "load":
                r = self.canon(v)
            elif o == "phi":
                vs = [self.lin(x, d + 1) for x, b in v.incoming if x is not v and not (isinstance(x, Inst) and x.op == "phi")] if d < 3 and False else []
        if r is None:
            r = (0, ((("i", v) if isinstance(v, Inst) else ("a", v) if isinstance(v, Arg) else ("?", repr(v)), 1),))
        self.linmemo[v] = r
        return r

    # -------------------------------------------------- guards
    def edges(self, b):
        """Conditions known to hold in block b: [(cond value, wanted)] and [(value, '==', const)]"""
        if b in self.gmemo:
            return self.gmemo[b]
        c = self.cfg(b.fn)
        out = []
        x = b
        while b in c.n:
            p = c.idom.get(x)
            if p is None or p is x:
                break
            out += self.edge(c, p, x)
            x = p
        self.gmemo[b] = out
        return out

    def edge(self, c, p, x, direct=False):
        """Conditions of the edge p -> x if x is entered only through it."""
        if not direct and [q for q in c.preds[x] if not c.dom(x, q)] != [p]:
            return []
        return self.edgeconds(p, x)

    def edgeconds(self, p, x):
        t = p.insts[-1]
        out = []
        if t.op == "br" and t.ops and t.targets and len(t.targets) == 2 and t.targets[0] is not t.targets[1]:
            out.append((t.ops[0], t.targets[0] is x))
        elif t.op == "switch":
            vs = [v for v, y in t.cases if y is x]
            if len(vs) == 1 and t.targets[0] is not x:
                out.append(("eq", t.ops[0], vs[0]))
            elif vs and t.targets[0] is not x:
                out.append(("in", t.ops[0], vs))
        return out

    def ineqs(self, b, d, extra=()):
        """Linear forms known to be <= 0 in block b."""
        out = []
        work = [(x, b) for x in list(self.edges(b)) + list(extra)]
        n = 0
        while work and n < 200:
            n += 1
            x, at = work.pop()
            if x[0] == "eq":
                l = ladd(self.lin(x[1]), lc(x[2]), -1)
                out += [l, lmul(l, -1)]
                continue
            if x[0] == "in":
                l = self.lin(x[1])
                out += [ladd(l, lc(max(x[2])), -1), ladd(lmul(l, -1), lc(min(x[2])))]
                continue
            c, want = x
            if not isinstance(c, Inst):
                continue
            if c.op == "xor" and isinstance(c.ops[1], Const):
                work.append(((c.ops[0], not want), at))
            elif c.op in ("zext", "trunc", "freeze"):
                work.append(((c.ops[0], want), at))
            elif c.op == "and" and want or c.op == "or" and not want:
                if c.ty.k == "int" and c.ty.a == 1:
                    work += [((c.ops[0], want), at), ((c.ops[1], want), at)]
            elif c.op == "select" and c.ty.k == "int" and c.ty.a == 1:
                if want and isinstance(c.ops[2], Const) and not c.ops[2].v:
                    work += [((c.ops[0], True), at), ((c.ops[1], True), at)]
                elif not want and isinstance(c.ops[1], Const) and c.ops[1].v:
                    work += [((c.ops[0], False), at), ((c.ops[2], False), at)]
            elif c.op == "phi" and c.ty.k == "int":
                live = [(v, q) for v, q in c.incoming if not (isinstance(v, Const) and bool(v.v) != want)]
                if len(live) == 1:
                    v, q = live[0]
                    if isinstance(v, Inst):
                        work.append(((v, want), at))
                    if q is not b:
                        work += [(y, at) for y in list(self.edges(q)) + self.edgeconds(q, c.block)]
            elif c.op == "icmp":
                a, z = c.ops
                if isinstance(z, (Const, Zero)) and getattr(z, "v", 0) == 0 and c.pred in ("ne", "eq") and isinstance(a, Inst) and (a.op in ("zext",) and a.ops[0].ty.k == "int" and a.ops[0].ty.a == 1):
                    work.append(((a.ops[0], want == (c.pred == "ne")), at))
                    continue
                if isinstance(z, (Const, Zero)) and getattr(z, "v", 0) == 0 and c.pred in ("ne", "eq") and isinstance(a, Inst) and a.op == "call" and d < 4:
                    out += self.predicate(a, want == (c.pred == "ne"), d)
                    # the value itself as well
                la, lz = self.lin(a), self.lin(z)
                p = c.pred if want else NEG[c.pred]
                if a.ty.k == "ptr":
                    continue
                # small types are compared as they are extended
                w = a.ty.a
                if w < 32:
                    s = "s" if p.startswith("s") else "z"
                    la, lz = self.small(a, s, w), self.small(z, s, w)
                u = p[0] == "u"
                q = p[1:] if p[0] in "us" and len(p) == 3 else p
                if q == "gt":
                    la, lz, q = lz, la, "lt"
                if q == "ge":
                    la, lz, q = lz, la, "le"
                df = ladd(la, lz, -1)
                if q == "lt":
                    out.append(ladd(df, lc(1)))
                elif q == "le":
                    out.append(df)
                elif q == "eq":
                    out += [df, lmul(df, -1)]
                elif q == "ne":
                    out.append(("ne", df))
                if u:
                    out.append(lmul(la, -1))
        return out

    def predicate(self, call, want, d):
        """What a helper's answer says about its arguments, in terms of the caller's values."""
        if not isinstance(call.callee, GRef):
            return []
        f = self.m.fns.get(call.callee.name)
        if f is None or len(f.blocks) > 12:
            return []
        rets = [b.insts[-1] for b in f.blocks if b.insts and b.insts[-1].op == "ret" and b.insts[-1].ops]
        if len(rets) != 1:
            return []
        out = []
        for g in self.ineqs(rets[0].block, d + 1, [((rets[0].ops[0], want))]):
            if g[0] == "ne":
                continue
            r = lc(g[0])
            ok = True
            for a, n in g[1]:
                if a[0] == "a" and a[1].fn is f:
                    r = ladd(r, self.lin(call.ops[a[1].idx]), n)
                elif a[0] == "i" and a[1].op == "load" and a[1].block.fn is f and (y := self.across(a[1], call)) is not None:
                    r = ladd(r, y, n)
                elif a[0] == "z" and a[1][0] == "a" and a[1][1].fn is f:
                    r = ladd(r, self.small(call.ops[a[1][1].idx], "z", a[2]), n)
                else:
                    ok = False
            if ok and r[1]:
                out.append(r)
        return out

    def across(self, ld, call):
        """The caller's value for what a helper loads."""
        key = self.akey(ld.ops[0])
        f, g = ld.block.fn, call.block.fn
        if any(self.clobbers(x, key) for x in f.insts()):
            return None
        if key[0][0] == "v":
            t = key[0][1]
            if len(t[1]) != 1 or t[0] or t[1][0][0][0] != "a":
                return None
            root = self.lin(call.ops[t[1][0][0][1].idx])
        else:
            root = None
        c = self.cfg(g)
        for i in g.insts():
            if i.op != "load" or i.ty != ld.ty or i.block not in c.n:
                continue
            k = self.akey(i.ops[0])
            if k[1] != key[1] or k[2][1] != key[2][1] or (k[0] != key[0] if root is None else k[0] != ("v", root)):
                continue
            for a, b in ((i, call), (call, i)):
                if c.dom(a.block, b.block) and (a.block is not b.block or self.pos[a] < self.pos[b]) and not any(self.clobbers(x, key) for x in self.between(a, b)):
                    return self.lin(i)
        return None

    def small(self, v, s, w):
        if isinstance(v, Const):
            return lc(v.v % (1 << w) if s == "z" else v.v)
        if isinstance(v, Zero):
            return lc(0)
        l = self.lin(v)
        a = l[1][0][0] if len(l[1]) == 1 and l[1][0][1] == 1 and not l[0] else ("i", v)
        return (0, (((s, a, w), 1),))

    # -------------------------------------------------- bounds
    def ub(self, e, b, d=0, extra=()):
        """Upper bound of a linear form in block b."""
        if not e[1]:
            return e[0]
        k = (e, b, tuple(extra))
        if not self.hyp and k in self.memo:
            return self.memo[k]
        self.budget += 1
        if d > 15 or self.budget > 6000:
            return INF
        r = self.each(e, b, d)
        ng = self.ineqs(b, d, extra)
        for g in ng:
            if g[0] == "ne":
                continue
            gd = dict(g[1])
            sh = [(n, gd[a]) for a, n in e[1] if a in gd]
            if sh:
                k1 = max([n // x for n, x in sh if n * x > 0] or [1])
                df = ladd(e, g, -k1)
                if len(df[1]) <= len(e[1]) + 1:
                    v = self.each(df, b, d + 1)
                    if (v == INF and len(df[1]) < 3 or len(df[1]) == 1 and d == 0) and d < 5:
                        # one more guard may bound the rest
                        for h in ng:
                            if h[0] != "ne" and h is not g and {a for a, n in h[1]} & {a for a, n in df[1]}:
                                v = min(v, self.each(ladd(df, h, -1), b, d + 2))
                    if d < 3 and len(df[1]) == 2 and df[1][0][1] == -df[1][1][1] and any(a[0] == "i" and a[1].op == "phi" for a, n in df[1]):
                        v = min(v, self.relate(df, b, d + 1, ng))
                    r = min(r, v)
        if r == INF and d < 7:
            for a, n in e[1]:
                if a[0] == "i" and a[1].op == "call" and n > 0 and isinstance(a[1].callee, GRef) and a[1].callee.name in ("read", "recv", "fread") and len(a[1].ops) > 2:
                    e2 = ladd(ladd(e, (0, ((a, n),)), -1), self.lin(a[1].ops[2]), n)
                    r = min(r, self.ub(e2, b, d + 1, extra))
            if r == INF:
                r = min(r, self.relate(e, b, d, ng))
        elif d == 0 or d < 5 and len(e[1]) == 2 and e[1][0][1] == -e[1][1][1] and all(a[0] == "i" and a[1].op == "phi" for a, n in e[1]):
            r = min(r, self.relate(e, b, d, ng))
        if r > 0 and len(e[1]) == 1 and e[1][0][1] > 0 and d < 11:
            r = min(r, self.unset(e, b, d))
        if len(e[1]) == 1:
            a, n = e[1][0]
            for g in ng:
                if g[0] == "ne" and g[1][1] and len(g[1][1]) == 1 and g[1][1][0][0] == a and abs(g[1][1][0][1]) == 1:
                    x = -g[1][0] * g[1][1][0][1]         # atom != x
                    if r == e[0] + n * x:
                        r -= 1 if abs(n) == 1 else 0
                elif g[0] == "ne" and len(g[1][1]) == 2 and a in dict(g[1][1]) and d < 4:
                    pass
        if not self.hyp:
            self.memo[k] = r
        return r

    def unset(self, e, b, d):
        """Bound of a loop's counter where a pointer the same loop sets is known to be unset."""
        a, n = e[1][0]
        if a[0] != "i" or a[1].op != "phi":
            return INF
        for x in self.edges(b):
            if len(x) != 2 or not isinstance(x[0], Inst) or x[0].op != "icmp" or x[0].ops[0].ty.k != "ptr":
                continue
            c, want = x
            p = c.ops[0]
            if not (isinstance(c.ops[1], Zero) or isinstance(c.ops[1], Const) and not c.ops[1].v) or (c.pred == "eq") != want or not isinstance(p, Inst) or p.op != "phi":
                continue
            seen = set()

            def go(v, q, bl, depth=0):
                if isinstance(strip(q), (GRef,)) or isinstance(q, Inst) and q.op in ("getelementptr", "alloca"):
                    return -INF
                if (v, q) in seen:
                    return -INF
                if depth > 12:
                    return INF
                seen.add((v, q))
                if isinstance(q, Inst) and q.op == "phi":
                    m = -INF
                    for qv, qb in q.incoming:
                        w = next(y for y, z in v.incoming if z is qb) if isinstance(v, Inst) and v.op == "phi" and v.block is q.block else v
                        m = max(m, go(w, qv, qb, depth + 1))
                    return m
                if isinstance(v, Inst) and v.op == "phi" and isinstance(q, (Zero, Const)):
                    return self.ub(self.lin(v), bl, d + 3)
                return self.ub(self.lin(v), bl, d + 3)
            k = ("u", a)
            if k in self.hyp:
                return INF
            self.hyp[k] = 0
            y = go(a[1], p, b)
            del self.hyp[k]
            if abs(y) != INF:
                return e[0] + n * y
        return INF

    def relate(self, e, b, d, ng):
        """Bounds by how variables of a loop move together."""
        phis = [(a[1], n) for a, n in e[1] if a[0] == "i" and a[1].op == "phi"]
        if not phis:
            return INF
        ek = ("e", e)
        if ek in self.hyp:
            return self.hyp[ek]
        if len(e[1]) == 1:
            p, n = phis[0]
            if n < 0:
                return INF
            best = INF
            for q in p.block.insts:
                if q.op != "phi":
                    break
                if q is p or q.ty.k != "int":
                    continue
                if not any(a == ("i", q) for g in ng for a, k in (g[1] if g[0] != "ne" else ())):
                    continue
                self.hyp[ek] = INF
                x = self.ub((0, ((("i", q), n),)), b, d + 2)
                if x != INF:
                    y = self.ub(ladd((0, ((("i", p), n),)), (0, ((("i", q), n),)), -1), p.block, d + 1)
                    best = min(best, e[0] + x + y)
                del self.hyp[ek]
            return best
        # take the variable decided last and look at where it comes from
        c = self.cfg(phis[0][0].block.fn)
        blk = max({p.block for p, n in phis}, key=lambda x: c.n.get(x, 0))
        here = [(p, n) for p, n in phis if p.block is blk]

        def run():
            vals = []
            for k in range(len(here[0][0].incoming)):
                q = here[0][0].incoming[k][1]
                x = e
                for p, n in here:
                    v = next(v for v, y in p.incoming if y is q)
                    x = ladd(ladd(x, (0, ((("i", p), n),)), -1), self.lin(v), n)
                if x == e:
                    continue
                y = None
                for hk, hv in list(self.hyp.items()):
                    if hk[0] == "e" and hv != INF and not ladd(x, hk[1], -1)[1]:
                        y = hv + ladd(x, hk[1], -1)[0]
                if y is None or y == -INF and False:
                    y = self.ub(x, q, d + 1, tuple(self.edgeconds(q, blk)))
                vals.append(y)
                if y == INF:
                    break
            return max(vals) if vals else INF
        self.hyp[ek] = -INF
        r0 = run()
        self.hyp[ek] = r0
        if r0 != -INF and (r0 == INF or run() > r0):
            r0 = INF
        del self.hyp[ek]
        return r0

    def lb(self, e, b, d=0, extra=()):
        r = self.ub(lmul(e, -1), b, d, extra)
        return -r

    def each(self, e, b, d):
        t = e[0]
        for a, n in e[1]:
            v = n * (self.uba(a, b, d + 1) if n > 0 else self.lba(a, b, d + 1))
            if v == INF or v != v:
                return INF
            t += v
        return t

    def uba(self, a, b, d):
        return self.atom(a, b, d, 1)

    def lba(self, a, b, d):
        return self.atom(a, b, d, -1)

    def atom(self, a, b, d, sg):
        """Bound of an atom: upper (sg 1) or lower (sg -1)."""
        W = INF * sg
        if d > 15:
            if a[0] == "z":
                return (1 << a[2]) - 1 if sg > 0 else 0
            return W
        if a[0] in ("z", "s"):
            w = a[2]
            lo, hi = (0, (1 << w) - 1) if a[0] == "z" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            v = self.atom(a[1], b, d + 1, sg) if a[0] == "z" or True else W
            o = self.atom(a[1], b, d + 1, -sg) if abs(v) != INF else W
            if abs(v) != INF and lo <= v <= hi and abs(o) != INF and lo <= o <= hi:
                return v
            return hi if sg > 0 else lo
        if a[0] == "a":
            return self.arg(a[1], d, sg)
        if a[0] != "i":
            return W
        v = a[1]
        if not isinstance(v, Inst):
            return W
        if ("h", v, sg) in self.hyp:
            return self.hyp[("h", v, sg)]
        if v.ty.k != "int":
            return W
        w = v.ty.a
        pick = max if sg > 0 else min
        get = (lambda x, bl, ex=(): self.ub(self.lin(x), bl, d + 1, ex)) if sg > 0 else (lambda x, bl, ex=(): self.lb(self.lin(x), bl, d + 1, ex))
        o = v.op
        r = W
        if o == "phi":
            k = ("h", v, sg)
            if v.block.fn.name not in self.warmed:
                self.warmed.add(v.block.fn.name)
                keep = self.hyp, self.thr, self.budget
                self.hyp, self.thr = {}, False
                self.warm(v.block.fn)
                self.hyp, self.thr, self.budget = keep
            y = self.known.get(k)
            if y is not None:
                return y
            ins = [(x, q) for x, q in v.incoming if x is not v]

            def run():
                vals = []
                for x, q in ins:
                    y = get(x, q, tuple(self.edgeconds(q, v.block)))
                    vals.append(y)
                return pick(vals)
            self.hyp[k] = -W
            r0 = run()
            self.hyp[k] = r0
            if r0 == -W:
                pass            # reached only through itself
            elif abs(r0) == INF or (r1 := run()) * sg > r0 * sg and not (abs(r1) != INF and not self.hyp.__setitem__(k, r1) and run() * sg <= r1 * sg and ((r0 := r1) or True)):
                self.hyp[k] = W
                r2 = run()
                if abs(r0) != INF and not self.thr and d < 4:
                    # a limit the function compares with may be kept
                    self.thr = True
                    for x in self.limits(v.block.fn, sg):
                        if r0 * sg < x * sg < r2 * sg:
                            self.hyp[k] = x
                            if run() * sg <= x * sg:
                                r2 = x
                                break
                    self.thr = False
                r0 = r2
            del self.hyp[k]
            return r0
        if o == "select":
            return pick(get(v.ops[1], b, ((v.ops[0], True),)), get(v.ops[2], b, ((v.ops[0], False),)))
        if o == "load":
            key = self.akey(v.ops[0])
            fl = key[1]
            x = self.inv.get(fl[-1]) if fl else self.inv.get(key[0]) if key[0][0] in ("g", "al") else None
            if fl and key[0][0] == "al" and x is None:
                x = None
            if x is None and key[0][0] == "al" and not fl:
                x = self.local(key[0][1])
            if x is None:
                x = self.constant(key)
            r = W
            if x is not None:
                r = x[0 if sg < 0 else 1]
            if fl and fl[-1][0] == TRUSTED:
                self.touched = True
            if abs(r) == INF or fl and d < 5:
                y = self.before(v, key, b, d, sg)
                r = min(r, y) if sg > 0 else max(r, y)
            if abs(r) == INF:
                y = self.carried(v, key, b, d, sg)
                r = min(r, y) if sg > 0 else max(r, y)
            return r
        if o == "call" and isinstance(v.callee, GRef):
            n = v.callee.name
            f = self.m.fns.get(n)
            if f is not None:
                k = ("ret", f.name, sg)
                if k in self.hyp:
                    return self.hyp[k]
                self.hyp[k] = W
                vals = []
                for q in f.blocks:
                    t = q.insts[-1] if q.insts else None
                    if t is not None and t.op == "ret" and t.ops:
                        vals.append(self.retval(t.ops[0], q, v, d, sg))
                del self.hyp[k]
                return pick(vals) if vals else W
            if n == "strlen" and sg > 0:
                x = self.region(v.ops[0])
                if x is None:
                    return W
                o = self.lb(x[1], b, d + 1)
                return x[0] - o - 1 if o != -INF else W
            if n in ("strlen", "strcspn", "strspn", "isspace", "isdigit", "isalnum", "isprint"):
                return 0 if sg < 0 else INF
            if n in ("read", "recv", "fread", "pread"):
                i = 2 if n != "fread" else 2
                return -1 if sg < 0 else get(v.ops[i], b)
            if n in ("snprintf", "vsnprintf"):
                return 0 if sg < 0 else INF       # conversions cannot fail here
            if n in ("open", "open64", "accept", "fork"):
                return -1 if sg < 0 else INF
            return W
        if o == "and":
            for x in v.ops:
                if isinstance(x, Const) and x.v >= 0:
                    return x.v if sg > 0 else 0
            return W
        if o in ("urem", "srem") and isinstance(v.ops[1], Const) and v.ops[1].v > 0:
            if o == "urem" or self.lb(self.lin(v.ops[0]), b, d + 1) >= 0:
                return v.ops[1].v - 1 if sg > 0 else 0
            return v.ops[1].v - 1 if sg > 0 else 1 - v.ops[1].v
        if o in ("udiv", "sdiv") and isinstance(v.ops[1], Const) and v.ops[1].v > 0:
            x = get(v.ops[0], b)
            return x // v.ops[1].v if abs(x) != INF else 0 if sg < 0 and o == "udiv" else W
        if o in ("lshr", "ashr") and isinstance(v.ops[1], Const):
            x = get(v.ops[0], b)
            return x >> v.ops[1].v if abs(x) != INF else 0 if sg < 0 and o == "lshr" else W
        if o == "icmp":
            return 1 if sg > 0 else 0
        if o == "trunc":
            u, l = self.ub(self.lin(v.ops[0]), b, d + 1), self.lb(self.lin(v.ops[0]), b, d + 1)
            if -(1 << (w - 1)) <= l and u < (1 << (w - 1)):
                return u if sg > 0 else l
            return W
        return W

    def reset(self):
        self.memo, self.hyp, self.known, self.warmed, self.thr = {}, {}, {}, set(), False

    def warm(self, f):
        """Bounds of a function's loop variables, found once and without assumptions."""
        for _ in range(2):
            for b in f.blocks:
                for i in b.insts:
                    if i.op != "phi":
                        break
                    if i.ty.k == "int" and i.ty.a > 1 and self.cfg(f).n.get(b) is not None:
                        for sg, fn in ((1, self.ub), (-1, self.lb)):
                            if ("h", i, sg) not in self.known:
                                self.budget = 0
                                x = fn(self.lin(i), b)
                                if abs(x) != INF:
                                    self.known[("h", i, sg)] = x

    def limits(self, f, sg):
        k = ("limits", f, sg)
        if k not in self.memo:
            out = set()
            for i in f.insts():
                if i.op == "icmp" and i.ops[0].ty.k == "int":
                    for o in i.ops:
                        if isinstance(o, Const):
                            out |= {o.v - 1, o.v, o.v + 1}
                        elif isinstance(o, Inst) and not (o.op == "phi"):
                            a = strip(o)
                            l = self.lin(a)
                            for x, n in l[1]:
                                while x[0] in ("z", "s"):
                                    x = x[1]
                                if x[0] == "i" and x[1].op == "load":
                                    q = self.akey(x[1].ops[0])
                                    iv = self.inv.get(q[1][-1] if q[1] else q[0])
                                    if iv and abs(iv[0 if sg < 0 else 1]) != INF:
                                        y = iv[0 if sg < 0 else 1]
                                        out |= {y - 1, y, y + 1}
            self.memo[k] = sorted((x for x in out if abs(x) < 1 << 24), reverse=sg < 0)
        return self.memo[k]

    def before(self, ld, key, b, d, sg):
        """What all callers know of a field that has not been written since the function was entered."""
        W = INF * sg
        if key[0][0] != "v" or d > 6:
            return W
        t = key[0][1]
        if len(t[1]) != 1 or t[1][0][0][0] != "a":
            return W
        a = t[1][0][0][1]
        f = a.fn
        if f is not ld.block.fn or f.name in self.taken or f.name not in self.callsites:
            return W
        c = self.cfg(f)
        entry = f.blocks[0]
        kk = ("entry", ld)
        if kk not in self.linmemo:
            self.linmemo[kk] = None
            ok = True
            if ld.block is entry and ld.block not in self.fwd(entry, None):
                region = entry.insts[:self.pos[ld]]
            else:
                region = list(entry.insts)
                for x in self.fwd(entry, None):
                    if x is ld.block:
                        region += x.insts if x in self.fwd(x, None) else x.insts[:self.pos[ld]]
                    elif ld.block in self.fwd(x, None):
                        region += x.insts
            self.linmemo[kk] = not any(self.clobbers(x, key) for x in region)
        if not self.linmemo[kk]:
            return W
        hk = ("before", ld, sg)
        if hk in self.hyp:
            return self.hyp[hk]
        self.hyp[hk] = W
        vals = []
        for g, call in self.callsites[f.name]:
            best = W
            self.cfg(g)
            root = self.lin(call.ops[a.idx])
            for i in g.insts():
                if i.op == "load" and i.ty == ld.ty and self.cfg(g).n.get(i.block) is not None:
                    k = self.akey(i.ops[0])
                    if k[1] and k[1][-1] == key[1][-1] and k[0] == ("v", root) and k[2][1] == key[2][1] and self.cfg(g).dom(i.block, call.block) and \
                            (i.block is not call.block or self.pos[i] < self.pos[call]) and not any(self.clobbers(x, key) for x in self.between(i, call)):
                        y = self.ub(self.lin(i), call.block, d + 2) if sg > 0 else self.lb(self.lin(i), call.block, d + 2)
                        best = min(best, y) if sg > 0 else max(best, y)
            if best == W:
                # not looked at there: what its callers know
                best = self.passed(g, call, a, key, d, sg)
            vals.append(best)
            if best == W:
                break
        del self.hyp[hk]
        return (max if sg > 0 else min)(vals) if vals else W

    def passed(self, g, call, a, key, d, sg):
        return INF * sg

    def carried(self, ld, key, b, d, sg):
        """A variable in memory that a loop changes: its value before the loop, or one stored since."""
        W = INF * sg
        hk = ("h", ld, sg)
        if hk in self.hyp or d > 6:
            return W
        f = ld.block.fn
        c = self.cfg(f)
        for i in f.insts():
            if i is ld or i.op not in ("load", "store") or i.block not in c.n or not (c.dom(i.block, ld.block) and (i.block is not ld.block or self.pos[i] < self.pos[ld])):
                continue
            if i.op == "store" and i.ops[0].ty.k != ld.ty.k or i.op == "load" and i.ty != ld.ty:
                continue
            if self.akey(i.ops[0 if i.op == "load" else 1])[2] != key[2]:
                continue
            cl = [x for x in self.between(i, ld) if self.clobbers(x, key)]
            if not cl or not all(x.op == "store" and self.akey(x.ops[1])[2] == key[2] for x in cl):
                continue
            fn = self.ub if sg > 0 else self.lb
            first = self.lin(i) if i.op == "load" else self.lin(i.ops[0])
            k0 = fn(first, b, d + 2)
            if abs(k0) == INF:
                continue
            loads = [x for x in f.insts() if x.op == "load" and x.ty == ld.ty and x is not i and self.akey(x.ops[0])[2] == key[2] and self.lin(x) != first]
            for x in loads:
                self.hyp[("h", x, sg)] = k0
            ok = all((fn(self.lin(x.ops[0]), x.block, d + 2) - k0) * sg <= 0 for x in cl)
            for x in loads:
                del self.hyp[("h", x, sg)]
            if ok:
                return k0
        return W

    def retval(self, x, q, call, d, sg):
        """Bound of a function's answer, arguments replaced by those of a call."""
        e = self.lin(x)
        b = call.block
        t = 0
        sub = lc(e[0])
        rest = lc(0)
        for a, n in e[1]:
            if a[0] == "a":
                sub = ladd(sub, self.lin(call.ops[a[1].idx]), n)
            else:
                rest = ladd(rest, (0, ((a, 1),)), n)
        f = self.ub if sg > 0 else self.lb
        v1 = f(e, q, d + 1)
        if len(sub[1]) and not rest[1]:
            v2 = f(sub, b, d + 1)
            return min(v1, v2) if sg > 0 else max(v1, v2)
        return v1

    def arg(self, a, d, sg):
        f = a.fn
        W = INF * sg
        if f.name in self.taken or d > 7 or f.name not in self.callsites:
            return W
        k = ("arg", a.fn.name, a.idx, sg)
        if k in self.hyp:
            return self.hyp[k]
        self.hyp[k] = -W
        vals = []
        for g, c in self.callsites[f.name]:
            if a.idx >= len(c.ops):
                vals.append(W)
                continue
            e = self.lin(c.ops[a.idx])
            vals.append(self.ub(e, c.block, d + 1) if sg > 0 else self.lb(e, c.block, d + 1))
            if vals[-1] == W:
                break
        del self.hyp[k]
        r = (max if sg > 0 else min)(vals)
        return r if abs(r) != INF else W

    def local(self, al):
        """Range of a local integer variable that is kept in memory."""
        k = ("local", al)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        vals = []
        for i in al.block.fn.insts():
            if i.op == "store" and strip(i.ops[1]) is al:
                vals.append((i.ops[0], i.block))
            elif i.op == "call" and any(strip(o) is al for o in i.ops):
                f = self.m.fns.get(getattr(i.callee, "name", None))
                if f is None:
                    return None
                idx = [n for n, o in enumerate(i.ops) if strip(o) is al][0]
                for j in f.insts():
                    if j.op == "store" and strip(j.ops[1]) is f.args[idx]:
                        vals.append((j.ops[0], j.block))
                    elif j.op == "call" and any(strip(o) is f.args[idx] for o in j.ops):
                        return None
        if not vals:
            return None
        r = (min(self.lb(self.lin(v), b, 4) for v, b in vals), max(self.ub(self.lin(v), b, 4) for v, b in vals))
        self.memo[k] = r
        return r

    def constant(self, key):
        """Range of a field of a constant table."""
        r, fl, _ = key
        if r[0] != "g" or not fl:
            return None
        g = self.m.globals.get(r[1])
        if g is None or not g.const or g.init is None:
            return None
        return None

    # -------------------------------------------------- invariants of fields and globals
    def fieldinv(self):
        stores, bad = {}, set()
        m = self.m

        def allfields(t, seen=()):
            rt = m.resolve(t)
            if rt.k == "struct":
                n = t.a if t.k == "named" else "?"
                for i, x in enumerate(rt.a):
                    yield m.field(n, i)
                    yield from allfields(x)
            elif rt.k == "arr":
                yield from allfields(rt.b)
        for f in m.fns.values():
            for i in f.insts():
                if i.op == "store" and i.ops[0].ty.k == "int":
                    r, fs = self.addr(i.ops[1])
                    if fs:
                        stores.setdefault(fs[-1], []).append(i)
                    elif isinstance(r, GRef):
                        stores.setdefault(("g", r.name), []).append(i)
                elif i.op == "call" and isinstance(i.callee, GRef):
                    n = i.callee.name
                    internal = n in m.fns
                    if n.startswith("llvm.mem") or n in ("memset", "memcpy", "memmove") or not internal and n in NOEFFECT | {"free"}:
                        continue
                    for k, o in enumerate(i.ops):
                        if o.ty.k != "ptr":
                            continue
                        r, fs = self.ms._addr(o)[:2]
                        r = strip(r)
                        fs = [x for x in fs if x]
                        if internal:
                            # the address of a counter itself is given away
                            if fs and self._scalar(o):
                                tgt = m.fns[n].args[k] if k < len(m.fns[n].args) else None
                                if tgt is not None and any(j.op == "store" and strip(j.ops[1]) is tgt or j.op == "call" and any(strip(x) is tgt for x in j.ops) for j in m.fns[n].insts()):
                                    bad.add(fs[-1])
                            elif not fs and isinstance(r, GRef) and r.name in m.globals and m.globals[r.name].ty.k == "int":
                                bad.add(("g", r.name))
                            continue
                        if fs:
                            bad.add(fs[-1])
                            t = m.fieldty(*fs[-1]) if fs[-1][0] in m.types else None if hasattr(m, "types") else None
                            if t is not None:
                                bad |= set(allfields(t))
                        elif isinstance(r, Inst) and r.op == "alloca":
                            bad |= set(allfields(r.ety))
                        elif isinstance(r, GRef) and r.name in m.globals:
                            bad.add(("g", r.name))
                            bad |= set(allfields(m.globals[r.name].ty))
        self.stores = stores
        self.bad = bad

        def ranges():
            self.reset()
            out = {}
            for k, ss in stores.items():
                if k in bad:
                    continue
                lo = hi = 0
                if k[0] == "g":
                    g = m.globals.get(k[1])
                    if g is None or isinstance(g.init, Const):
                        lo = hi = g.init.v if g is not None else 0
                vals = []
                for i in ss:
                    e = self.lin(i.ops[0])
                    self.budget = 0
                    u = self.ub(e, i.block)
                    self.budget = 0
                    l = self.lb(e, i.block)
                    w = i.ops[0].ty.a
                    if w <= 16:
                        # kept as it is stored: the unsigned reading
                        l, u = max(l, 0), min(u, (1 << w) - 1)
                    vals.append((l, u))
                out[k] = (min([lo] + [v[0] for v in vals]), max([hi] + [v[1] for v in vals]), vals)
            return out
        r = ranges()
        # guess: fields are never negative, and never above the largest bounded value stored
        guess = {}
        for k, (lo, hi, vals) in r.items():
            gl = min([0] + [v[0] for v in vals if v[0] != -INF])
            gh = max([0] + [v[1] for v in vals if v[1] != INF])
            guess[k] = (gl, gh)
        self.guess = guess
        self.inv = dict(guess)
        for _ in range(8):
            r = ranges()
            ch = False
            for k, (lo, hi, vals) in r.items():
                l, h = self.inv[k]
                n = (l if lo >= l else -INF, h if hi <= h else INF)
                if n != self.inv[k]:
                    self.inv[k] = n
                    ch = True
            if not ch:
                break
        else:
            self.inv = {}
        # counters: the limits they are compared with
        cands = {}
        for f in m.fns.values():
            for i in f.insts():
                if i.op == "icmp" and i.ops[0].ty.k == "int":
                    for a, z in (i.ops, i.ops[::-1]):
                        if isinstance(z, Const) and 0 < z.v < 1 << 20:
                            for t, n in self.lin(a)[1]:
                                while t[0] in ("z", "s"):
                                    t = t[1]
                                if t[0] == "i" and t[1].op == "load":
                                    r, fs = self.addr(t[1].ops[0])
                                    k = fs[-1] if fs else ("g", r.name) if isinstance(r, GRef) else None
                                    cands.setdefault(k, set()).update((z.v - 1, z.v, z.v + 1))
        consts = sorted({c for v in cands.values() for c in v} | {c - d for c in self.sizes() for d in (0, 1)})
        todo = [k for k in self.stores if k not in bad and self.inv.get(k, (0, 0))[1] == INF]
        for _ in range(3):
            ch = False
            for k in list(todo):
                for c in sorted(cands.get(k, ())) + [x for x in consts if _ and x not in cands.get(k, ())][:0]:
                    old = self.inv[k]
                    if self.inductive(k, (old[0], c)):
                        todo.remove(k)
                        ch = True
                        break
                else:
                    # what is stored, with all else known by now
                    old = self.inv[k]
                    self.reset()
                    v = self.hival(k)
                    if v != INF:
                        self.inv[k] = (old[0], v)
                        todo.remove(k)
                        ch = True
                    else:
                        for c in consts:
                            if self.inductive(k, (old[0], c)) if k in self.tables() else False:
                                todo.remove(k)
                                ch = True
                                break
            if not ch:
                break
        self.reset()

    def sizes(self):
        return {g.ty.a for g in self.m.globals.values() if g.ty.k == "arr"}

    def tables(self):
        return ()

    def hival(self, k):
        vs = [0]
        for i in self.stores[k]:
            self.budget = 0
            vs.append(self.ub(self.lin(i.ops[0]), i.block))
        return max(vs)

    def inductive(self, k, rng):
        old = self.inv.get(k)
        self.inv[k] = rng
        self.reset()
        if self.hival(k) <= rng[1]:
            self.reset()
            return True
        self.inv[k] = old
        self.reset()
        return False

    def _scalar(self, o):
        o = strip(o)
        if not (isinstance(o, (Inst, CExpr)) and o.op == "getelementptr"):
            return False
        t = o.ety
        for i in o.ops[2:]:
            rt = self.m.resolve(t)
            t = rt.a[i.v] if rt.k == "struct" else rt.b
        return self.m.resolve(t).k == "int"

    # -------------------------------------------------- regions
    def slen(self, p, b, d=0):
        """Upper bound of the length of a string."""
        if d > 5:
            return INF
        q = strip(p)
        r = INF
        g = None
        if isinstance(q, Zero) or isinstance(q, Const) and not q.v:
            return -INF             # no text at all
        if isinstance(q, GRef):
            g = self.m.globals.get(q.name)
        elif isinstance(q, CExpr) and q.op == "getelementptr" and isinstance(strip(q.ops[0]), GRef) and all(isinstance(o, Const) and not o.v for o in q.ops[1:]):
            g = self.m.globals.get(strip(q.ops[0]).name)
        if g is not None and g.const and g.ty.k == "arr":
            return g.ty.a - 1
        x = self.region(q)
        if x is not None:
            o = self.lb(x[1], b, d + 1)
            if o != -INF:
                r = x[0] - 1 - o
        # lengths the function has taken
        base, off = self.split(q)
        f = b.fn
        c = self.cfg(f)
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == "strlen" and i.block in c.n and c.dom(i.block, b):
                b2, o2 = self.split(strip(i.ops[0]))
                if b2 == base:
                    self.budget = 0
                    r = min(r, self.ub(ladd(self.lin(i), ladd(o2, off, -1)), b, d + 1))
        if isinstance(q, Inst) and q.op == "phi":
            k = ("sl", q)
            if k in self.hyp:
                return -INF
            self.hyp[k] = 0
            r = min(r, max(self.slen(v, y, d + 1) for v, y in q.incoming))
            del self.hyp[k]
        elif isinstance(q, Inst) and q.op == "select":
            r = min(r, max(self.slen(v, b, d + 1) for v in q.ops[1:]))
        bs = base[1] if base[0] == "p" else None
        if r == INF and isinstance(bs, Arg) and f.name not in self.taken and f.name in self.callsites:
            o = self.lb(off, b, d + 1)
            if o >= 0:
                r = max(self.slen(call.ops[bs.idx], call.block, d + 1) for g, call in self.callsites[f.name]) - o
        elif r == INF and isinstance(bs, Inst) and bs.op == "call" and isinstance(bs.callee, GRef) and bs.callee.name in ("strtok", "strtok_r", "strchr", "strrchr", "strstr") and self.lb(off, b, d + 1) >= 0 and \
                not (isinstance(bs.ops[0], (Const, Zero))):
            r = self.slen(bs.ops[0], bs.block, d + 1)
        elif r == INF and isinstance(bs, Inst) and bs.op == "call" and isinstance(bs.callee, GRef) and bs.callee.name in ("strtok", "strtok_r") and isinstance(bs.ops[0], (Const, Zero)) and self.lb(off, b, d + 1) >= 0:
            src = [i for i in f.insts() if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name == bs.callee.name and not isinstance(i.ops[0], (Const, Zero))]
            if src:
                r = max(self.slen(i.ops[0], i.block, d + 1) for i in src)
        return r

    def split(self, p):
        """(base, byte offset) of a pointer into bytes"""
        off = lc(0)
        while isinstance(p, (Inst, CExpr)) and p.op == "getelementptr" and len(p.ops) == 2 and self.m.sizeof(p.ety) == 1:
            off = ladd(off, self.lin(p.ops[1]))
            p = strip(p.ops[0])
        if isinstance(p, Inst) and p.op == "load":
            return ("l", self.lin(p)), off
        if isinstance(p, (Inst, CExpr)) and p.op == "getelementptr":
            return ("k", self.akey(p)[2]), off
        return ("p", p), off

    def region(self, p, d=0):
        """(capacity in bytes, offset as a linear form, name) of the array or object a pointer points into, or None."""
        p = strip(p)
        m = self.m
        if isinstance(p, (Inst, CExpr)) and p.op == "getelementptr":
            t = p.ety
            lead = self.lin(p.ops[1])
            if len(p.ops) == 2:
                r = self.region(p.ops[0], d)
                return None if r is None else (r[0], ladd(r[1], lmul(lead, m.sizeof(t))), r[2])
            cap, off, name = None, lc(0), None
            first = True
            for at, i in enumerate(p.ops[2:], 3):
                rt = m.resolve(t)
                if rt.k == "struct":
                    name = m.field(t.a if t.k == "named" else "?", i.v)
                    t = rt.a[i.v]
                    cap, off = m.sizeof(t), lc(0)
                else:
                    if cap is None and first:
                        r = self.region(p.ops[0], d)
                        if r is not None:
                            cap, off, name = r[0], ladd(r[1], lmul(lead, m.sizeof(t))), r[2]
                        else:
                            cap = m.sizeof(t)
                    et = rt.b
                    k = m.resolve(et).k
                    if k == "arr" or k == "struct" and at < len(p.ops):
                        cap, off, name = m.sizeof(et), lc(0), name          # within one element
                    else:
                        off = ladd(off, lmul(self.lin(i), m.sizeof(et)))
                    t = et
                first = False
            return (cap, off, name)
        if isinstance(p, Inst) and p.op == "alloca":
            return (m.sizeof(p.ety), lc(0), p.var or p.name)
        if isinstance(p, GRef) and p.name in m.globals:
            return (m.sizeof(m.globals[p.name].ty), lc(0), p.name)
        if isinstance(p, Inst) and p.op == "call" and isinstance(p.callee, GRef) and p.callee.name in ("malloc", "calloc"):
            n = self.lin(p.ops[0]) if p.callee.name == "malloc" else None
            if n is None:
                a, b = self.lin(p.ops[0]), self.lin(p.ops[1])
                n = lmul(a, b[0]) if not b[1] else lmul(b, a[0]) if not a[1] else None
            if n is not None and not n[1]:
                return (n[0], lc(0), "heap")
        return None
