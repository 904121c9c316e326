"""Path-sensitive property simulation (ESP-style dataflow) over the parsed IR.

Abstract values (AV): int constants, or hash-consed tuples
  ('v', inst|arg)            the value defined there
  ('+', t, c)                t plus a constant
  ('a', root, path)          an address: root is ('g',name) or a token; path = (('f',S,F)|('x',AV), ...)
  ('cmp', pred, a, b)        truth of a comparison
  ('not', x) ('sx',t,w) ('tr',t,w) ('op',opc,a,b)
State = env (SSA -> AV), facts (token -> interval + excluded values, comparison -> truth), mem (address,width -> AV),
auto (user automaton state).  States at a block are kept apart when their automaton state or the value of a live
constant-valued flag differs, joined otherwise.  No path is executed and no solver is used.
"""
import heapq
from ir import *

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
INF = float("inf")
# library functions that write only through these arguments
OUTARGS = {"snprintf": [0], "vsnprintf": [0, 3], "sprintf": [0], "strcpy": [0], "strncpy": [0], "strcat": [0], "strncat": [0], "memcpy": [0],
           "memset": [0], "read": [1], "recv": [1], "fgets": [0, 2], "fread": [0, 3], "write": [], "send": [], "dprintf": [], "printf": [], "fprintf": [0],
           "perror": [], "open": [], "access": [], "opendir": [], "fopen": [], "closedir": [], "close": []}
NOEFFECT = {"strcmp", "strncmp", "strlen", "strchr", "strrchr", "strstr", "printf", "fprintf", "puts", "perror", "_keyd_log", "vprintf",
            "vfprintf", "write", "close", "usleep", "isspace", "__ctype_b_loc", "atoi", "free", "exit", "_exit", "abort",
            "__assert_fail", "access", "open", "fopen", "fclose", "memcmp", "dprintf", "setsockopt", "fflush", "putchar", "xwrite",
            "send", "shutdown", "nice", "chmod", "unlink", "listen", "bind", "flock", "fork", "wait", "waitpid", "dup2",
            "execl", "kill", "getenv", "isatty", "sleep", "__errno_location", "calloc", "malloc", "device_set_led",
            "vkbd_send_key", "vkbd_mouse_scroll", "vkbd_mouse_move", "vkbd_mouse_move_abs", "ioctl_ro"}


# result ranges promised by the C library
LIBRANGE = {n: (-1, 0) for n in ("flock", "bind", "listen", "close", "chmod", "fchmod", "unlink", "setgid", "setegid", "access", "connect",
                                 "setsockopt", "pthread_mutex_lock", "usleep", "closedir", "fclose", "rename")}
LIBRANGE.update({n: (-1, INF) for n in ("open", "accept", "accept4", "socket", "read", "write", "recv", "send", "fork", "dup", "dup2", "dup3",
                                        "ioctl", "poll", "inotify_init1", "inotify_add_watch", "waitpid", "fcntl", "lseek")})
LIBRANGE["strlen"] = (0, INF)


class State:
    __slots__ = ("env", "facts", "mem", "auto", "trace")

    def copy(self):
        s = State()
        s.env, s.facts, s.mem, s.auto, s.trace = dict(self.env), dict(self.facts), dict(self.mem), self.auto, self.trace
        return s


def contains(av, tok):
    if av is tok or av == tok:
        return True
    if isinstance(av, tuple):
        for x in av:
            if isinstance(x, tuple) and contains(x, tok):
                return True
    return False


def subst(av, tok, new):
    if av == tok:
        return new
    if isinstance(av, tuple):
        if any(isinstance(x, tuple) for x in av):
            return tuple(subst(x, tok, new) if isinstance(x, tuple) else x for x in av)
    return av


def add(a, c):
    if c == 0:
        return a
    if isinstance(a, int):
        return a + c
    if a[0] == "+":
        return add(a[1], a[2] + c)
    return ("+", a, c)


def fpath(addr):
    """Names of the fields on an address's path, outermost first."""
    if isinstance(addr, tuple) and addr[0] == "a":
        return [e[2] for e in addr[2] if e[0] == "f"]
    return []


def sfields(addr):
    if isinstance(addr, tuple) and addr[0] == "a":
        return [(e[1], e[2]) for e in addr[2] if e[0] == "f"]
    return []


def lastfield(addr):
    f = sfields(addr)
    return f[-1] if f else None


class Engine:
    """Subclass and override on_inst / on_call_unknown / on_exit / initial."""
    max_states = 400000
    split_flags = True
    split_selects = False       # follow every choice between values as a branch

    def __init__(self, mod, fn, modsets=None):
        self.mod, self.fn = mod, fn
        self.ms = modsets
        self.npoints = 0
        self.events = 0
        self._prep()

    # ------------------------------------------------ preparation
    def _prep(self):
        fn = self.fn
        # reverse postorder
        order, seen = [], set()
        st = [(fn.blocks[0], iter(fn.blocks[0].succs))]
        seen.add(fn.blocks[0])
        while st:
            b, it = st[-1]
            for t in it:
                if t not in seen:
                    seen.add(t)
                    st.append((t, iter(t.succs)))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.scc = self._sccs()
        # flags: phis of constants (directly or through other such phis)
        phis = [i for b in fn.blocks for i in b.insts if i.op == "phi"]
        flags = set(phis)
        ch = True
        while ch:
            ch = False
            for p in list(flags):
                for v, _ in p.incoming:
                    if isinstance(v, Const) or v is p or (isinstance(v, Inst) and v in flags) or isinstance(v, Undef) or \
                            (isinstance(v, Inst) and v.op in ("icmp",)) or (isinstance(v, Inst) and v.op in ("zext", "xor") and
                             isinstance(v.ops[0], Inst) and (v.ops[0] in flags or v.ops[0].op == "icmp")):
                        continue
                    if not any(isinstance(x, Const) for x, _ in p.incoming):
                        flags.discard(p)
                        ch = True
                        break
        if not self.split_flags:
            flags = set()
        # keep phis used (through casts/phis) in comparisons, branches, switches or returns
        uses = {}
        for i in fn.insts():
            for o in i.ops:
                if isinstance(o, Inst):
                    uses.setdefault(o, []).append(i)
            for v, _ in i.incoming or ():
                if isinstance(v, Inst):
                    uses.setdefault(v, []).append(i)
        self.uses = uses

        def relevant(p, seen):
            for u in uses.get(p, ()):
                if u in seen:
                    continue
                seen.add(u)
                if u.op in ("icmp", "br", "switch", "ret", "store", "call", "select"):
                    return True
                if u.op in ("zext", "sext", "trunc", "phi", "and", "or", "xor", "add", "sub", "mul"):
                    if relevant(u, seen):
                        return True
            return False
        flags = {p for p in flags if relevant(p, set())}
        # induction variables are not flags
        flags = {p for p in flags if not self._induction(p)}
        self.inductive = {p for p in phis if p.block in self.scc and self._induction(p)}
        self.flags = flags
        self.livein = self._ssalive()
        # liveness of flags (a flag is live while it or a value computed from it may still be used)
        self.live = self._liveness(flags)

    def _ssalive(self):
        """Live-in SSA values per block, as int bitsets (phi results count as live-in of their own block)."""
        num, bit = {}, {}
        for b in self.order:
            for i in b.insts:
                bit[i] = 1 << len(bit)
        for a in self.fn.args:
            bit[a] = 1 << len(bit)
        self._bit = bit
        gen, kill, outphi = {}, {}, {b: 0 for b in self.order}
        for b in self.order:
            g = k = 0
            for i in b.insts:
                if i.op == "phi":
                    for v, q in i.incoming:
                        if v in bit and q in outphi:
                            outphi[q] |= bit[v]
                    continue
                ops = list(i.ops)
                if i.op == "call" and isinstance(i.callee, (Inst, Arg)):
                    ops.append(i.callee)
                for o in ops:
                    if isinstance(o, (Inst, Arg)) and o in bit and not (k & bit[o]):
                        g |= bit[o]
                k |= bit[i]
            gen[b], kill[b] = g, k
        li = {b: 0 for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = outphi[b]
                for t in b.succs:
                    x = li[t]
                    for i in t.insts:
                        if i.op != "phi":
                            break
                        x &= ~bit[i]
                    o |= x
                n = gen[b] | (o & ~kill[b])
                for i in b.insts:
                    if i.op != "phi":
                        break
                    n |= bit[i]
                if n != li[b]:
                    li[b] = n
                    ch = True
        args = 0
        for a in self.fn.args:
            args |= bit[a]
        return {b: x | args for b, x in li.items()}

    def _induction(self, p):
        for v, _ in p.incoming:
            if isinstance(v, Inst) and v.op in ("add", "sub", "getelementptr", "load", "call", "sdiv", "udiv", "ashr", "lshr", "mul"):
                x = [o for o in v.ops if isinstance(o, Inst)]
                if p in x:
                    return True
        return False

    def _liveness(self, flags):
        # transitive: value w derived from flag f by casts keeps f live
        carrier = {}
        for f in flags:
            stack = [f]
            while stack:
                x = stack.pop()
                if (x, f) in carrier:
                    continue
                carrier[(x, f)] = 1
                for u in self.uses.get(x, ()):
                    if u.op in ("zext", "sext", "trunc", "icmp", "xor"):
                        stack.append(u)
        use, dfn = {}, {}
        vals = {}
        for (x, f) in carrier:
            vals.setdefault(x, set()).add(f)
        blocks = self.order
        gen = {b: set() for b in blocks}
        kill = {b: set() for b in blocks}
        outphi = {b: set() for b in blocks}
        for b in blocks:
            for i in b.insts:
                if i.op == "phi":
                    for v, q in i.incoming:
                        if v in vals and q in outphi:
                            outphi[q] |= vals[v]
                    continue
                for o in i.ops:
                    if isinstance(o, Inst) and o in vals:
                        gen[b] |= vals[o]
            for i in b.insts:
                if i.op == "phi" and i in flags:
                    kill[b].add(i)
        livein = {b: set() for b in blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(blocks):
                out = set(outphi[b])
                for s in b.succs:
                    out |= livein[s]
                li = (gen[b] | out)
                # flags defined by phis here are not live-in, but are live inside; keep them for keying at entry (post-phi)
                if li != livein[b]:
                    livein[b] = li
                    ch = True
        # keying happens after phis are evaluated, so do not subtract kills for this block; subtract for propagation
        # (recompute properly)
        livein = {b: set() for b in blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(blocks):
                out = set(outphi[b])
                for s in b.succs:
                    out |= (livein[s] - kill[s])
                li = gen[b] | out
                if li != livein[b]:
                    livein[b] = li
                    ch = True
        return livein

    def _sccs(self):
        # blocks in a cycle
        idx, low, st, on, out, n = {}, {}, [], set(), set(), [0]
        for root in self.order:
            if root in idx:
                continue
            work = [(root, iter(root.succs))]
            idx[root] = low[root] = n[0]
            n[0] += 1
            st.append(root)
            on.add(root)
            while work:
                b, it = work[-1]
                adv = False
                for t in it:
                    if t not in idx:
                        idx[t] = low[t] = n[0]
                        n[0] += 1
                        st.append(t)
                        on.add(t)
                        work.append((t, iter(t.succs)))
                        adv = True
                        break
                    elif t in on:
                        low[b] = min(low[b], idx[t])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[b])
                if low[b] == idx[b]:
                    comp = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        comp.append(x)
                        if x is b:
                            break
                    if len(comp) > 1 or b in b.succs:
                        out |= set(comp)
        return out

    # ------------------------------------------------ evaluation
    def val(self, s, o):
        if isinstance(o, Const):
            return o.v
        if isinstance(o, (Inst, Arg)):
            r = s.env.get(o)
            return ("v", o) if r is None else r
        if isinstance(o, GRef):
            return ("a", ("g", o.name), ())
        if isinstance(o, CExpr):
            if o.op == "getelementptr":
                return self.gep(s, o.ety, o.ops)
            if o.op in ("inttoptr", "ptrtoint", "bitcast") and isinstance(o.ops[0], Const):
                return o.ops[0].v
            if o.op in ("ptrtoint", "bitcast") and isinstance(o.ops[0], (GRef, CExpr)):
                return self.val(s, o.ops[0])
            return ("c", repr(o))
        if isinstance(o, Zero):
            return 0
        if isinstance(o, Undef):
            return ("undef",)
        return ("c", repr(o))

    def gep(self, s, ety, ops):
        base = self.val(s, ops[0])
        if isinstance(base, tuple) and base[0] == "a":
            root, path = base[1], list(base[2])
        else:
            root, path = base, []
            if isinstance(base, tuple) and base[0] == "+":
                root, path = base[1], [("x", base[2])]
        lead = self.val(s, ops[1])
        self._px(path, lead)
        t = ety
        for o in ops[2:]:
            rt = self.mod.resolve(t)
            if rt.k == "struct":
                i = o.v
                d, n = self.mod.field(t.a if t.k == "named" else "?", i)
                path.append(("f", d, n))
                t = rt.a[i]
            else:
                self._px(path, self.val(s, o))
                t = rt.b
        return ("a", ("k", root) if isinstance(root, int) else root, tuple(path))

    @staticmethod
    def _px(path, i):
        if i == 0:
            return
        if path and path[-1][0] == "x":
            p = path[-1][1]
            if isinstance(i, int):
                r = add(p, i)
            elif isinstance(p, int):
                r = add(i, p)
            else:
                r = ("op", "add", p, i)
            path.pop()
            if r != 0:
                path.append(("x", r))
        else:
            path.append(("x", i))

    def rng(self, s, av):
        if isinstance(av, int):
            return (av, av, frozenset())
        if av[0] == "+":
            l, h, e = self.rng(s, av[1])
            return (l + av[2], h + av[2], frozenset(x + av[2] for x in e))
        f = s.facts.get(av)
        if f is not None:
            return f
        return self.tokrng(av)

    def srng(self, av):
        """Range from the type alone (the shape of a value must not depend on path facts)."""
        if isinstance(av, int):
            return (av, av)
        if av[0] == "+":
            l, h = self.srng(av[1])
            return (l + av[2], h + av[2])
        r = self.tokrng(av)
        return (r[0], r[1])

    def tokrng(self, av):
        if av[0] == "v":
            r = getattr(av[1], "range", None)
            if r is not None:
                return r
            t = av[1].ty
            if t.k == "int":
                if t.a == 1:
                    return (0, 1, frozenset())
                if t.a <= 16:
                    return (0, (1 << t.a) - 1, frozenset())
        elif av[0] in ("cmp", "not"):
            return (0, 1, frozenset())
        elif av[0] == "tr" and av[2] <= 16:
            return (0, (1 << av[2]) - 1, frozenset())
        elif av[0] == "sx" and isinstance(av[2], int) and av[2] <= 16:
            l, h, e = self.tokrng(av[1]) if isinstance(av[1], tuple) else (av[1], av[1], frozenset())
            half = 1 << (av[2] - 1)
            if 0 <= l and h < half:
                return (l, h, e)
            if 0 <= l and h < 2 * half:
                return (-half, half - 1, frozenset(x if x < half else x - 2 * half for x in e))
            return (-half, half - 1, frozenset())
        elif av[0] == "a":
            if av[1][0] in ("g", "al") or av[2]:
                return (1, INF, frozenset())
        elif av[0] == "op" and av[1] == "and":
            for x in (av[2], av[3]):
                if isinstance(x, int) and x >= 0:
                    return (0, x, frozenset())
        elif av[0] == "op" and av[1] in ("urem", "srem") and isinstance(av[3], int):
            return (-abs(av[3]) + 1 if av[1] == "srem" else 0, abs(av[3]) - 1, frozenset())
        return (-INF, INF, frozenset())

    def const(self, s, av):
        if isinstance(av, int):
            return av
        l, h, e = self.rng(s, av)
        return int(l) if l == h else None

    def _cmpkey(self, pred, a, b):
        """Normal form: pred in eq/slt/ult with ordered operands; returns (key, negate)."""
        neg = False
        if pred in ("ne",):
            pred, neg = "eq", True
        elif pred in ("sge", "uge"):
            pred, neg = pred[0] + "lt", True
        elif pred in ("sgt", "ugt"):
            pred, a, b = pred[0] + "lt", b, a
        elif pred in ("sle", "ule"):
            pred, a, b, neg = pred[0] + "lt", b, a, True
        if pred == "eq" and repr(a) > repr(b):
            a, b = b, a
        return ("cmp", pred, a, b), neg

    @staticmethod
    def _u0(pred, a, b):
        """Unsigned comparisons against 0 and 1 are (in)equalities with 0."""
        if pred[0] == "u":
            if isinstance(a, int):
                pred, a, b = SWAP[pred], b, a
            if b == 0 and pred in ("ugt", "ule") or b == 1 and pred in ("uge", "ult"):
                return ("ne" if pred in ("ugt", "uge") else "eq"), a, 0
        return pred, a, b

    def mkcmp(self, s, pred, a, b):
        pred, a, b = self._u0(pred, a, b)
        t = self.decide(s, pred, a, b)
        if t is not None:
            return int(t)
        if pred in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[0] in ("cmp", "not") and isinstance(y, int) and y in (0, 1):
                    if (pred == "eq") == (y == 1):
                        return x
                    return x[1] if x[0] == "not" else ("not", x)
        k, neg = self._cmpkey(pred, a, b)
        return ("not", k) if neg else k

    @staticmethod
    def _elem(a):
        """An address as (array, index)."""
        if a[0] != "a":
            return (a, ()), 0
        if a[2] and a[2][-1][0] == "x":
            return (a[1], a[2][:-1]), a[2][-1][1]
        return (a[1], a[2]), 0

    def decide(self, s, pred, a, b):
        if not (isinstance(a, int) and isinstance(b, int)):
            pred, a, b = self._u0(pred, a, b)
        if isinstance(a, int) and isinstance(b, int):
            w = 1 << 64
            if pred[0] == "u":
                a, b = a % w, b % w
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[-2:]]
        if a == b:
            return pred[-2:] in ("eq", "le", "ge")
        # booleans compared with 0/1
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and isinstance(x, tuple) and x[0] in ("cmp", "not") and pred in ("eq", "ne"):
                t = self.truth(s, x)
                if t is None:
                    return None
                return (int(t) == y) == (pred == "eq")
        if isinstance(a, tuple) and isinstance(b, tuple):
            ba, ca = (a[1], a[2]) if a[0] == "+" else (a, 0)
            bb, cb = (b[1], b[2]) if b[0] == "+" else (b, 0)
            if ba == bb:
                if pred in ("eq", "ne"):
                    return (ca == cb) == (pred == "eq")
                return {"lt": ca < cb, "le": ca <= cb, "gt": ca > cb, "ge": ca >= cb}[pred[-2:]]
            (qa, ia), (qb, ib) = self._elem(a), self._elem(b)
            if qa == qb and (a[0] == "a" or b[0] == "a") and isinstance(ia, int) and isinstance(ib, int):
                return {"eq": ia == ib, "ne": ia != ib, "lt": ia < ib, "le": ia <= ib, "gt": ia > ib, "ge": ia >= ib}[pred[-2:]]
            if a[0] == "a" and b[0] == "a" and a[1] == b[1] and pred in ("eq", "ne"):
                if a[2] != b[2] and all(not isinstance(e[1], tuple) or e[0] == "f" for e in a[2] + b[2]):
                    return pred == "ne"
            if a[0] == "a" and b[0] == "a" and a[1] == b[1] and pred not in ("eq", "ne") and len(a[2]) == len(b[2]) and a[2][:-1] == b[2][:-1] \
                    and a[2] and a[2][-1][0] == b[2][-1][0] == "x" and isinstance(a[2][-1][1], int) and isinstance(b[2][-1][1], int):
                ca, cb = a[2][-1][1], b[2][-1][1]
                return {"lt": ca < cb, "le": ca <= cb, "gt": ca > cb, "ge": ca >= cb}[pred[-2:]]
            if a[0] == "a" and b[0] == "a" and a[1] != b[1] and pred in ("eq", "ne") and \
                    a[1][0] in ("g", "al") and b[1][0] in ("g", "al"):
                return pred == "ne"
        la, ha, ea = self.rng(s, a)
        lb, hb, eb = self.rng(s, b)
        p = pred[-2:]
        if p in ("eq", "ne"):
            if ha < lb or hb < la or (la == ha and la in eb) or (lb == hb and lb in ea):
                return p == "ne"
        elif pred[0] == "s" or (la >= 0 and lb >= 0):
            if p == "lt":
                if ha < lb:
                    return True
                if la >= hb:
                    return False
            elif p == "le":
                if ha <= lb:
                    return True
                if la > hb:
                    return False
            elif p == "gt":
                if la > hb:
                    return True
                if ha <= lb:
                    return False
            elif p == "ge":
                if la >= hb:
                    return True
                if ha < lb:
                    return False
        k, neg = self._cmpkey(pred, a, b)
        t = s.facts.get(k)
        if t is not None:
            return t != neg
        return None

    def truth(self, s, c):
        if isinstance(c, int):
            return bool(c)
        if c[0] == "not":
            t = self.truth(s, c[1])
            return None if t is None else not t
        if c[0] == "cmp":
            return self.decide(s, c[1], c[2], c[3])
        l, h, e = self.rng(s, c)
        if l > 0 or h < 0 or 0 in e:
            return True
        if l == h == 0:
            return False
        return None

    def assume(self, s, c, want):
        """Refine s with c == want; False if contradictory."""
        t = self.truth(s, c)
        if t is not None:
            return t == want
        if c[0] == "not":
            return self.assume(s, c[1], not want)
        if c[0] == "cmp":
            pred = c[1] if want else NEG[c[1]]
            return self.assume_cmp(s, pred, c[2], c[3])
        if want:
            return self._refine(s, c, "ne", 0)
        return self._refine(s, c, "eq", 0)

    def assume_cmp(self, s, pred, a, b):
        pred, a, b = self._u0(pred, a, b)
        d = self.decide(s, pred, a, b)
        if d is not None:
            return d
        k, neg = self._cmpkey(pred, a, b)
        s.facts[k] = not neg
        for x, y, p in ((a, b, pred), (b, a, SWAP[pred])):
            if isinstance(x, tuple) and isinstance(y, int):
                if x[0] in ("cmp", "not") and p in ("eq", "ne"):
                    if y in (0, 1):
                        return self.assume(s, x, (y == 1) == (p == "eq"))
                if not self._refine(s, x, p, y):
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                l, h, e = self.rng(s, y)
                if p == "eq":
                    if l == h and not self._refine(s, x, "eq", int(l)):
                        return False
                elif p in ("slt", "sle") and h < INF:
                    if not self._refine(s, x, p, int(h)):
                        return False
                elif p in ("ult", "ule") and h < INF and l >= 0:
                    if not self._refine(s, x, p, int(h)):
                        return False
                elif p in ("sgt", "sge") and l > -INF:
                    if not self._refine(s, x, p, int(l)):
                        return False
                elif p in ("ugt", "uge") and l >= 0 and self.rng(s, x)[0] >= 0:
                    if not self._refine(s, x, p, int(l)):
                        return False
        return True

    def _refine(self, s, x, p, c):
        if isinstance(x, int):
            return self.decide(s, p, x, c)
        if x[0] == "+":
            if p[0] == "u":
                l, h, e = self.rng(s, x)
                if l < 0:
                    return True
            return self._refine(s, x[1], p, c - x[2])
        if x[0] == "sx" and p in ("eq", "ne"):
            self._refine(s, x[1], p, c % (1 << x[2]))
        l, h, e = self.rng(s, x)
        if p == "eq":
            if c < l or c > h or c in e:
                return False
            l = h = c
        elif p == "ne":
            if l == h == c:
                return False
            e = e | {c}
        elif p in ("slt", "sle") or (p in ("ult", "ule") and c >= 0):
            h = min(h, c - 1 if p[-2:] == "lt" else c)
            if p[0] == "u":
                l = max(l, 0)
        elif p in ("sgt", "sge") or (p in ("ugt", "uge") and l >= 0):
            l = max(l, c + 1 if p[-2:] == "gt" else c)
        while l in e:
            l += 1
        while h in e:
            h -= 1
        if l > h:
            return False
        s.facts[x] = (l, h, frozenset(v for v in e if l <= v <= h))
        if x[0] == "v" and l == h and isinstance(x[1], (Inst, Arg)):
            pass
        return True

    # ------------------------------------------------ memory
    def width(self, t):
        if t.k == "int":
            return max(1, t.a // 8)
        if t.k == "ptr":
            return 8
        try:
            return self.mod.sizeof(t)
        except IRError:
            return 0

    def load(self, s, addr, ins):
        w = self.width(ins.ty)
        v = s.mem.get((addr, w))
        if v is not None:
            return v
        if isinstance(addr, tuple) and addr[0] == "a":
            # a field of an aggregate copied as a whole
            path = addr[2]
            for k in range(len(path), -1, -1):
                base = ("a", addr[1], path[:k])
                ag = s.mem.get((base, "agg"))
                if ag is not None:
                    if ag[0] == "zero":
                        return 0
                    src = ag[2] if len(ag) > 2 else None
                    if isinstance(src, tuple) and src[0] == "g":
                        src = ("a", src, ())
                    if isinstance(src, tuple) and src[0] == "a" and src[1][0] == "g":
                        g = self._constload(("a", src[1], src[2] + path[k:]), ins.ty)
                        if g is not None:
                            return g
                    r = ("fld", ag, path[k:], w)
                    return r
        # constant globals
        g = self._constload(addr, ins.ty)
        if g is not None:
            return g
        r = self.fresh_load(s, addr, ins)
        s.mem[(addr, w)] = r
        return r

    def fresh_load(self, s, addr, ins):
        return ("v", ins)

    def _constload(self, addr, ty):
        if not (isinstance(addr, tuple) and addr[0] == "a" and addr[1][0] == "g"):
            return None
        g = self.mod.globals.get(addr[1][1])
        if g is None or not g.const or g.init is None:
            return None
        v, t = g.init, g.ty
        for e in self._norm(addr[2], t):
            if e is None:
                return None
            if isinstance(v, Zero):
                return 0 if ty.k in ("int", "ptr") else None
            rt = self.mod.resolve(t)
            if isinstance(v, Str):
                return v.b[e] if e < len(v.b) and ty.k == "int" and ty.a == 8 else None
            if not isinstance(v, Agg) or e >= len(v.elems):
                return None
            v = v.elems[e]
        if isinstance(v, Const):
            return v.v
        if isinstance(v, Zero):
            return 0
        if isinstance(v, GRef) and ty.k == "ptr":
            return ("a", ("g", v.name), ())
        return None

    def _norm(self, path, t):
        """Indices of a path through a global of type t, inserting dropped zero indices."""
        out = []
        path = list(path)
        for _ in range(12):
            rt = self.mod.resolve(t)
            if rt.k == "arr":
                if path and path[0][0] == "x":
                    i = path.pop(0)[1]
                    if not isinstance(i, int) or i < 0 or i >= rt.a:
                        return [None]
                    out.append(i)
                else:
                    out.append(0)
                t = rt.b
            elif rt.k == "struct":
                if path and path[0][0] == "f":
                    e = path.pop(0)
                    nm = self.mod.fields.get(t.a if t.k == "named" else "?", (None, []))[1]
                    if e[2] in nm:
                        i = nm.index(e[2])
                    else:
                        return [None]
                    out.append(i)
                    t = rt.a[i]
                elif path:
                    return [None]
                else:
                    out.append(0)
                    t = rt.a[0]
            else:
                break
        return out if not path else [None]

    def _mayalias(self, a, b):
        """May the objects at addresses a and b overlap (a: written, b: key)?"""
        if a == b:
            return True
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            return True
        ra, pa = (a[1], a[2]) if a[0] == "a" else (a, ())
        rb, pb = (b[1], b[2]) if b[0] == "a" else (b, ())
        if ra != rb:
            la = ra[0] in ("g", "al")
            lb = rb[0] in ("g", "al")
            if la and lb:
                return False
            if (ra[0] == "al" and ra not in self.escaped) or (rb[0] == "al" and rb not in self.escaped):
                return False
        fa = [(e[1], e[2]) for e in pa if e[0] == "f"]
        fb = [(e[1], e[2]) for e in pb if e[0] == "f"]
        if fa and fb:
            # field-sensitive: one must be a suffix-compatible prefix of the other
            if ra == rb:
                n = min(len(fa), len(fb))
                if fa[:n] != fb[:n]:
                    return False
                # compare constant indices position-wise
                return self._idx_compat(pa, pb)
            return fa[-1] == fb[-1] or fa[-1] in fb or fb[-1] in fa
        if not fa and not fb:
            if ra == rb:
                return self._idx_compat(pa, pb)
            return True
        if ra == rb:
            return True
        if (ra[0] == "g" and not fa) or (rb[0] == "g" and not fb):
            return False        # a global without structure does not overlap a structure's field
        # one side is a plain scalar/array pointer: a field store does not alias an untyped local unless escaped
        return False if (ra[0] == "al" or rb[0] == "al") else (not fa)

    @staticmethod
    def _idx_compat(pa, pb):
        def split(p):
            out = []
            cur = 0
            for e in p:
                if e[0] == "f":
                    out.append((cur, e))
                    cur = 0
                else:
                    cur = e[1]
            out.append((cur, None))
            return out
        A, B = split(pa), split(pb)
        for (i, ea), (j, eb) in zip(A, B):
            if i != j:
                if isinstance(i, int) and isinstance(j, int):
                    return False
                bi, ci = (i[1], i[2]) if isinstance(i, tuple) and i[0] == "+" else (i, 0)
                bj, cj = (j[1], j[2]) if isinstance(j, tuple) and j[0] == "+" else (j, 0)
                if bi == bj and ci != cj:
                    return False
            if ea != eb:
                return ea is None or eb is None
        return True

    def store(self, s, addr, v, w):
        for k in [k for k in s.mem if k[0] != addr and self._mayalias(addr, k[0])]:
            if k[1] == "agg" and s.mem[k][0] == "zero" and addr[0] == "a" and k[0][1] == addr[1]:
                # the other fields of the object stay zero
                n = len(k[0][2])
                for j in range(n, len(addr[2])):
                    e = addr[2][j]
                    if addr[2][:n] != k[0][2] or e[0] != "f":
                        break
                    for f in self.mod.fields.get("struct." + str(e[1]), (None, ()))[1] or ():
                        if f != e[2]:
                            s.mem[(("a", addr[1], addr[2][:j] + (("f", e[1], f),)), "agg")] = ("zero",)
            del s.mem[k]
        for k in [k for k in s.mem if k[0] == addr and k[1] != w]:
            del s.mem[k]
        if w:
            s.mem[(addr, w)] = v

    def havoc_addr(self, s, addr):
        """Forget everything at or below addr."""
        for k in [k for k in s.mem if self._mayalias(addr, k[0])]:
            del s.mem[k]

    def memcpy(self, s, dst, src, ins, n):
        carry = []
        ag = None
        if isinstance(src, tuple):
            rs, ps = (src[1], src[2]) if src[0] == "a" else (src, ())
            for (k, w), v in s.mem.items():
                rk, pk = (k[1], k[2]) if k[0] == "a" else (k, ())
                if rk == rs and pk[:len(ps)] == ps:
                    carry.append((pk[len(ps):], w, v))
                    if pk == ps and w == "agg":
                        ag = v
        self.havoc_addr(s, dst)
        rd, pd = (dst[1], dst[2]) if dst[0] == "a" else (dst, ())
        if ag is None:
            ag = ("agg", ("v", ins), src)
        s.mem[(("a", rd, pd), "agg")] = ag
        for suf, w, v in carry:
            if w != "agg" or suf:
                s.mem[(("a", rd, pd + suf), w)] = v

    def memzero(self, s, dst):
        self.havoc_addr(s, dst)
        rd, pd = (dst[1], dst[2]) if dst[0] == "a" else (dst, ())
        s.mem[(("a", rd, pd), "agg")] = ("zero",)

    # ------------------------------------------------ transfer
    def kill(self, s, ins):
        tok = ("v", ins)
        if ins not in s.env and ("used", ins) not in s.facts:
            pass
        stale = ("stale", ins.uid)
        for d in (s.env,):
            for k in [k for k, v in d.items() if isinstance(v, tuple) and contains(v, tok)]:
                if k is ins:
                    del d[k]
                else:
                    d[k] = subst(d[k], tok, stale)
        for k in [k for k in s.facts if isinstance(k, tuple) and (contains(k, tok) or contains(k, stale))]:
            del s.facts[k]
        for k in [k for k, v in s.mem.items() if contains(k[0], tok) or contains(k[0], stale)]:
            del s.mem[k]
        for k in [k for k, v in s.mem.items() if isinstance(v, tuple) and contains(v, tok)]:
            s.mem[k] = subst(s.mem[k], tok, stale)
        s.auto = self.rename(s.auto, tok, stale)

    def rename(self, auto, tok, stale):
        if isinstance(auto, tuple):
            return subst(auto, tok, stale)
        return auto

    def step(self, s, ins):
        """Default transfer of a non-terminator.  Returns s (mutated)."""
        op = ins.op
        if op == "dbg":
            return
        if ins.block in self.scc and ins.ty.k != "void" and (ins in s.env or self._mentioned(s, ins)):
            self.kill(s, ins)
        if op == "alloca":
            s.env[ins] = ("a", ("al", ins), ())
        elif op == "load":
            s.env[ins] = self.load(s, self._adr(self.val(s, ins.ops[0])), ins)
        elif op == "store":
            self.store(s, self._adr(self.val(s, ins.ops[1])), self._storeval(s, ins), self.width(ins.ops[0].ty))
        elif op == "getelementptr":
            s.env[ins] = self.gep(s, ins.ety, ins.ops)
        elif op == "icmp":
            s.env[ins] = self.mkcmp(s, ins.pred, self.val(s, ins.ops[0]), self.val(s, ins.ops[1]))
        elif op in ("zext", "bitcast", "inttoptr", "ptrtoint"):
            v = self.val(s, ins.ops[0])
            if op == "zext" and isinstance(v, int):
                v %= 1 << ins.ops[0].ty.a
            elif op == "zext" and v[0] == "sx":
                v = ("v", ins)
            s.env[ins] = v
        elif op == "sext":
            v = self.val(s, ins.ops[0])
            w = ins.ops[0].ty.a
            if isinstance(v, int):
                v %= 1 << w
                v = v - (1 << w) if v >> (w - 1) else v
            elif w <= 16:
                l, h = self.srng(v)
                if not (l >= 0 and h < (1 << (w - 1))):
                    v = ("sx", v, w)
            s.env[ins] = v
        elif op == "trunc":
            v = self.val(s, ins.ops[0])
            w = ins.ty.a
            if isinstance(v, int):
                v %= 1 << w
                if w >= 32 and v >> (w - 1):
                    v -= 1 << w
            else:
                l, h = self.srng(v)
                if v[0] == "sx" and v[2] == w:
                    v = v[1]
                elif w < 32 and not (l >= 0 and h < (1 << w)):
                    if v[0] == "tr" and v[2] >= w:
                        v = ("tr", v[1], w)
                    else:
                        v = ("tr", v, w)
            s.env[ins] = v
        elif op in BINOPS:
            s.env[ins] = self.binop(s, ins)
        elif op == "select":
            c = self.truth(s, self.val(s, ins.ops[0]))
            if c is None:
                a, b = self.val(s, ins.ops[1]), self.val(s, ins.ops[2])
                s.env[ins] = a if a == b else ("v", ins)
            else:
                s.env[ins] = self.val(s, ins.ops[1 if c else 2])
        elif op == "call":
            self.call(s, ins)
        else:
            s.env[ins] = ("v", ins)

    def _adr(self, a):
        """The address of the scalar itself: an object of known type that is accessed through its own address is accessed at its first field."""
        if not (isinstance(a, tuple) and a[0] == "a" and a[1][0] in ("g", "al")):
            return a
        m = self.mod
        if a[1][0] == "g":
            g = m.globals.get(a[1][1])
            t = g.ty if g is not None else None
        else:
            t = a[1][1].ety
        if t is None:
            return a
        path = list(a[2])
        k = 0
        for _ in range(12):
            rt = m.resolve(t)
            if rt.k == "arr":
                if k < len(path) and path[k][0] == "x":
                    k += 1
                t = rt.b
            elif rt.k == "struct":
                d, names = m.fields.get(t.a if t.k == "named" else "?", (None, None))
                if not names:
                    return a
                if k < len(path):
                    if path[k][0] != "f" or path[k][1] != d or path[k][2] not in names:
                        return a
                    i = names.index(path[k][2])
                else:
                    i = 0
                    path.append(("f", d, names[0]))
                k += 1
                t = rt.a[i]
            else:
                break
        return ("a", a[1], tuple(path)) if k == len(path) else a

    def _storeval(self, s, ins):
        v = self.val(s, ins.ops[0])
        return v

    def _mentioned(self, s, ins):
        tok = ("v", ins)
        return tok in s.facts or any(contains(k[0], tok) or isinstance(v, tuple) and contains(v, tok) for k, v in s.mem.items()) \
            or any(isinstance(k, tuple) and contains(k, tok) for k in s.facts)

    def binop(self, s, ins):
        a, b = self.val(s, ins.ops[0]), self.val(s, ins.ops[1])
        op = ins.op
        w = ins.ty.a if ins.ty.k == "int" else 64
        if isinstance(a, int) and isinstance(b, int):
            try:
                r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                     "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: (a % (1 << w)) >> b, "ashr": lambda: a >> b,
                     "sdiv": lambda: tdiv(a, b), "udiv": lambda: (a % (1 << w)) // (b % (1 << w)), "srem": lambda: a - tdiv(a, b) * b,
                     "urem": lambda: (a % (1 << w)) % (b % (1 << w))}[op]()
            except (KeyError, ZeroDivisionError, ValueError):
                return ("v", ins)
            if w <= 32 and op not in ("and", "or", "lshr", "urem", "udiv") and w > 1:
                r = (r + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
            if w == 1:
                r &= 1
            return r
        if op == "add":
            if isinstance(b, int):
                return add(a, b)
            if isinstance(a, int):
                return add(b, a)
        if op == "sub":
            if isinstance(b, int):
                return add(a, -b)
            if a == b:
                return 0
            ba, ca = (a[1], a[2]) if isinstance(a, tuple) and a[0] == "+" else (a, 0)
            bb, cb = (b[1], b[2]) if isinstance(b, tuple) and b[0] == "+" else (b, 0)
            if ba == bb:
                return ca - cb
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "a" and a[1] == b[1] and a[1][0] == "g":
                g = self.mod.globals.get(a[1][1])
                ia, ib = [p[0][1] if len(p) == 1 and p[0][0] == "x" else 0 if not p else None for p in (a[2], b[2])]
                if g is not None and g.ty.k == "arr" and isinstance(ia, int) and isinstance(ib, int):
                    return (ia - ib) * self.mod.sizeof(g.ty.b)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "a" and a[1] == b[1]:
                # elements of one array: the difference is only ever divided by the size of an element
                n = min(len(a[2]), len(b[2]))
                k = next((k for k in range(n) if a[2][k] != b[2][k]), n)
                ra, rb = a[2][k:], b[2][k:]
                if len(ra) <= 1 and len(rb) <= 1 and all(e[0] == "x" for e in ra + rb):
                    ia, ib = ra[0][1] if ra else 0, rb[0][1] if rb else 0
                    if ib == 0 and not isinstance(ia, int):
                        return ("op", "pdiff", ia, 0)
        if op == "sdiv" and isinstance(a, tuple) and a[:2] == ("op", "pdiff") and isinstance(b, int):
            return a[2]
        if op == "xor" and b in (1, -1) and w == 1:
            return ("not", a) if a[0] != "not" else a[1]
        if op == "and":
            if a == 0 or b == 0:
                return 0
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and isinstance(x, tuple):
                    l, h, e = self.rng(s, x)
                    if l >= 0 and y == 255 and h <= 255:
                        return x
        if op == "mul":
            if a == 0 or b == 0:
                return 0
            if b == 1:
                return a
        if op == "or":
            if a == 0:
                return b
            if b == 0:
                return a
        if op in ("mul", "and", "or", "xor") and repr(a) > repr(b):
            a, b = b, a
        r = ("op", op, a, b)
        if len(repr(r)) > 1500:
            return ("v", ins)
        return r

    def call(self, s, ins):
        name = ins.callee.name if isinstance(ins.callee, GRef) else None
        args = [self.val(s, o) for o in ins.ops]
        if name and name.startswith("llvm.memcpy") or name == "memmove" or (name or "").startswith("llvm.memmove"):
            self.memcpy(s, args[0], args[1], ins, args[2])
            return
        if name and name.startswith("llvm.memset"):
            if args[1] == 0:
                self.memzero(s, args[0])
            else:
                self.havoc_addr(s, args[0])
            return
        if name and name.startswith("llvm."):
            if ins.ty.k != "void":
                s.env[ins] = ("v", ins)
            return
        self.effects(s, ins, name, args)
        if ins.ty.k != "void":
            s.env[ins] = ("v", ins)
            r = LIBRANGE.get(name)
            if r is not None and name not in self.mod.fns:
                s.facts[("v", ins)] = (r[0], r[1], frozenset())

    def effects(self, s, ins, name, args):
        if name in self.mod.fns and self.ms is not None:
            if name in NOEFFECT:
                return
            ca = self.mod.fns[name].constargs
            self.apply_modset(s, self.ms.of(self.mod.fns[name]), [a for i, a in enumerate(args) if i not in ca])
            return
        if name is None:
            return self.indirect_effects(s, ins, args)
        if name in NOEFFECT:
            return
        if name in OUTARGS:
            args = [args[i] for i in OUTARGS[name] if i < len(args)]
        for a in args:
            if isinstance(a, tuple) and a[0] == "a" and (a[1][0] in ("al", "g") or True):
                self.havoc_addr(s, a)

    def indirect_effects(self, s, ins, args):
        return

    def apply_modset(self, s, ms, args):
        fields, globs, raw = ms
        for k in list(s.mem):
            a = k[0]
            if not (isinstance(a, tuple) and a[0] == "a"):
                if raw:
                    del s.mem[k]
                continue
            if a[1][0] == "al" and a[1] in self.private:
                continue
            if any((e[1], e[2]) in fields for e in a[2] if e[0] == "f") or (a[1][0] == "g" and a[1][1] in globs) or \
                    (k[1] == "agg" and any(True for _ in ())):
                del s.mem[k]
        # values hidden in whole-object copies: a struct whose field is modified
        for k in [k for k in s.mem if k[1] == "agg" and not (k[0][1][0] == "al" and k[0][1] not in self.escaped)]:
            del s.mem[k]
        for a in args:
            if isinstance(a, tuple) and a[0] == "a" and isinstance(a[1], tuple) and a[1][0] == "al":
                self.havoc_addr(s, a)

    # ------------------------------------------------ automaton hooks
    def initial(self):
        return None

    def seed(self, s):
        pass

    def on_inst(self, s, ins):
        """Called before the default transfer. May change s.auto.  Return False to cut the path, or a list of states."""
        return None

    def after_inst(self, s, ins):
        return None

    def on_exit(self, s, ins):
        pass

    def flagkey(self, s, block):
        out = []
        for f in self.live[block]:
            v = s.env.get(f)
            if isinstance(v, int):
                out.append((f.uid, v))
        out.sort()
        return tuple(out)

    def extra_key(self, s, block):
        return None

    unrolled = ()

    def unroll(self, cfg, limit=16, heads=None):
        """Follow loops with a small constant trip count iteration by iteration."""
        out = []
        for h in cfg.loops:
            if heads is not None and h not in heads:
                continue
            for p, init, step in cfg.counted(h):
                if p.ty.k == "ptr" and _constgep(init) is not None and any(
                        _constgep(x) == _constgep(init) for b, pred, x, off in cfg.bound(h, p)):
                    # a pointer over an array of fixed size
                    self.inductive.discard(p)
                    out.append(p)
                    continue
                if p.ty.k != "int" or not isinstance(init, Const):
                    continue
                if any(isinstance(x, Const) and abs(x.v - init.v) <= limit * abs(step) for b, pred, x, off in cfg.bound(h, p)):
                    self.inductive.discard(p)
                    out.append(p)
        self.unrolled = tuple(out)
        return out

    def _unkey(self, s, b):
        if not self.unrolled:
            return None
        lv, bit = self.livein[b], self._bit
        return tuple((p.uid, s.env[p]) for p in self.unrolled if _concrete(s.env.get(p)) and (b is p.block or lv & bit[p]))

    # ------------------------------------------------ fixpoint
    def run(self, start=None):
        """start: list of (state, block, index) to resume from instead of the entry."""
        self.escaped = self._escapes()
        self.states = {b: {} for b in self.order}
        self.joins = {}
        self.dirty = None
        self.npoints = 0
        heap = []
        if start is None:
            s = State()
            s.env, s.facts, s.mem, s.auto, s.trace = {}, {}, {}, self.initial(), ()
            self.seed(s)
            self._enter(s, self.order[0], heap)
        else:
            self.dirty = {}
            for s, b, i in start:
                self._block(s.copy(), b, heap, i)
        while heap:
            r, _, b, key = heapq.heappop(heap)
            if key not in self.dirty.get(b, ()):
                continue
            self.dirty[b].discard(key)
            st = self.states[b].get(key)
            if st is None:
                continue
            self._block(st.copy(), b, heap)
            if self.npoints > self.max_states:
                raise IRError(f"state budget exceeded in {self.fn.name}")
        return self

    def _escapes(self):
        esc = set()
        self.private = set()         # locals only ever passed to program functions as pointers to const
        for i in self.fn.insts():
            if i.op == "alloca":
                stack, seen = [i], set()
                shared = False
                while stack:
                    x = stack.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    for u in self.uses.get(x, ()):
                        if u.op in ("getelementptr", "phi", "select", "bitcast"):
                            stack.append(u)
                        elif u.op == "store" and u.ops[0] is x:
                            esc.add(("al", i))
                        elif u.op == "call" and isinstance(u.callee, GRef) and u.callee.name in self.mod.fns:
                            ca = self.mod.fns[u.callee.name].constargs
                            if any(o is x and k not in ca for k, o in enumerate(u.ops)):
                                shared = True
                        elif u.op == "call" and not isinstance(u.callee, GRef):
                            shared = True
                if not shared and ("al", i) not in esc:
                    self.private.add(("al", i))
        return esc

    dirty = None

    def _enter(self, s, b, heap):
        if self.dirty is None:
            self.dirty = {}
        key = (s.auto, self.flagkey(s, b), self.extra_key(s, b), self._unkey(s, b))
        lv, bit = self.livein[b], self._bit
        s.env = {k: v for k, v in s.env.items() if lv & bit[k]}
        old = self.states[b].get(key)
        if old is None:
            self.states[b][key] = s
            ch = True
        else:
            n = self.joins[(b, key)] = self.joins.get((b, key), 0) + 1
            ch = self._join(old, s, n > 6, b)
        if ch:
            self.dirty.setdefault(b, set()).add(key)
            self._c = getattr(self, "_c", 0) + 1
            heapq.heappush(heap, (self.rpo[b], self._c, b, key))

    def _join(self, old, new, widen, b):
        ch = False
        fresh = {}
        for k in list(old.env):
            v = old.env[k]
            if k not in new.env:
                del old.env[k]
                ch = True
            elif new.env[k] != v and v != ("v", k):
                if k.ty.k == "int" and k.ty.a > 1:
                    x, y = self.rng(old, v), self.rng(new, new.env[k])
                    r = (min(x[0], y[0]), max(x[1], y[1]), frozenset())
                    if r[:2] != self.tokrng(("v", k))[:2] and r[:2] != (-INF, INF):
                        fresh[("v", k)] = r
                old.env[k] = ("v", k)
                ch = True
        for k in list(old.facts):
            a, n = old.facts[k], new.facts.get(k)
            if isinstance(a, bool):
                if n is not a:
                    t = None
                    if n is None and k[0] == "cmp":
                        t = self.decide(new, k[1], k[2], k[3])
                    if t is not a:
                        del old.facts[k]
                        ch = True
                continue
            if k[0] == "v" and k[1] in new.env and new.env[k[1]] != k:
                n = self.rng(new, new.env[k[1]])
            if n is None:
                n = self.rng(new, k) if isinstance(k, tuple) else None
            if n == a:
                continue
            j = (min(a[0], n[0]), max(a[1], n[1]),
                 frozenset(x for x in a[2] | n[2] if (x in a[2] or not a[0] <= x <= a[1]) and (x in n[2] or not n[0] <= x <= n[1])))
            if j == a:
                continue
            ch = True
            if widen:
                lo = a[0] if j[0] == a[0] else -INF
                hi = a[1] if j[1] == a[1] else INF
                tr = self.tokrng(k)
                lo, hi = max(lo, tr[0]), min(hi, tr[1])
                j = (lo, hi, frozenset(j[2] & a[2]))
            if j == self.tokrng(k):
                del old.facts[k]
            else:
                old.facts[k] = j
        for k in list(old.mem):
            if k not in new.mem or new.mem[k] != old.mem[k]:
                del old.mem[k]
                ch = True
        old.facts.update(fresh)
        return ch

    def _block(self, s, b, heap, i0=0):
        work = [(s, i0)]
        # a hook may fork the state, so process a small stack
        while work:
            s, i = work.pop()
            dead = False
            insts = b.insts
            while i < len(insts):
                ins = insts[i]
                self.npoints += 1
                if ins.op == "phi":
                    i += 1
                    continue
                if ins.targets is not None:
                    break
                if ins.op == "select" and (self.split_selects or
                                           isinstance(self.val(s, ins.ops[1]), int) and isinstance(self.val(s, ins.ops[2]), int)):
                    # a choice between constants is a branch
                    c = self.val(s, ins.ops[0])
                    if self.truth(s, c) is None:
                        for want in (True, False):
                            n = s.copy()
                            if self.assume(n, c, want) and self.on_branch(n, ins, c, want) is not False:
                                n.trace = self._trace(n, ins, want)
                                v = self.val(n, ins.ops[1 if want else 2])
                                if ins.block in self.scc and (ins in n.env or self._mentioned(n, ins)):
                                    self.kill(n, ins)
                                n.env[ins] = v
                                work.append((n, i + 1))
                        dead = True
                        break
                r = self.on_inst(s, ins)
                if r is False:
                    dead = True
                    break
                if isinstance(r, list):
                    for x in r:
                        self.step(x, ins)
                        self.after_inst(x, ins)
                        work.append((x, i + 1))
                    dead = True
                    break
                self.step(s, ins)
                r = self.after_inst(s, ins)
                if r is False or ins.op == "call" and self.noreturn(ins):
                    dead = True
                    break
                i += 1
            if dead:
                continue
            t = insts[-1]
            if t.op in ("ret", "unreachable"):
                self.on_inst(s, t)
                self.on_exit(s, t)
                continue
            self._branch(s, t, b, heap)

    def _branch(self, s, t, b, heap):
        if t.op == "br" and len(t.targets) == 1:
            self._edge(s, b, t.targets[0], t, heap, None)
            return
        if t.op == "br":
            c = self.val(s, t.ops[0])
            tr = self.truth(s, c)
            if tr is not None:
                self._edge(s, b, t.targets[0 if tr else 1], t, heap, None)
                return
            for k, want in ((0, True), (1, False)):
                n = s.copy()
                if self.assume(n, c, want) and self.on_branch(n, t, c, want) is not False:
                    n.trace = self._trace(n, t, want)
                    self._edge(n, b, t.targets[k], t, heap, want)
            return
        if t.op == "switch":
            v = self.val(s, t.ops[0])
            w = t.ops[0].ty.a
            c = self.const(s, v)
            if c is not None:
                for cv, tb in t.cases:
                    if cv % (1 << w) == c % (1 << w):
                        self._edge(s, b, tb, t, heap, None)
                        return
                self._edge(s, b, t.targets[0], t, heap, None)
                return
            d = s.copy()
            dok = True
            for cv, tb in t.cases:
                n = s.copy()
                if self.assume_cmp(n, "eq", v, cv):
                    n.trace = self._trace(n, t, f"case {cv}")
                    self._edge(n, b, tb, t, heap, cv)
                if dok:
                    dok = self.assume_cmp(d, "ne", v, cv)
            if dok:
                d.trace = self._trace(d, t, "default")
                self._edge(d, b, t.targets[0], t, heap, "default")
            return
        raise IRError("terminator " + t.op)

    def noreturn(self, ins):
        """A call of a function of the program that never returns (die)."""
        f = self.mod.fns.get(ins.callee.name) if isinstance(ins.callee, GRef) else None
        return f is not None and not any(b.insts and b.insts[-1].op == "ret" for b in f.blocks)

    def on_branch(self, s, t, c, want):
        return None

    def _trace(self, s, t, w):
        f, l = self.mod.loc(t)
        return (s.trace, f"{os.path.basename(f)}:{l}={'T' if w is True else 'F' if w is False else w}")

    def _edge(self, s, b, tgt, t, heap, w):
        # s may be shared (single successor: we own it)
        phis = [i for i in tgt.insts if i.op == "phi"]
        if phis:
            vals = []
            for p in phis:
                v = None
                for x, q in p.incoming:
                    if q is b:
                        v = self.val(s, x)
                        break
                vals.append(v)
            rngs, pre = {}, {}
            if tgt in self.scc:
                for p, v in zip(phis, vals):
                    if v is not None and p.ty.k == "int" and p.ty.a > 1:
                        r = self.rng(s, v)
                        (rngs if p in self.inductive else pre)[p] = (r[0], r[1], frozenset())
                for p, v in zip(phis, vals):
                    if p in s.env or self._mentioned(s, p) or any(isinstance(x, tuple) and contains(x, ("v", p)) for x in vals):
                        stale = ("stale", p.uid)
                        vals = [subst(x, ("v", p), stale) if isinstance(x, tuple) else x for x in vals]
                        self.kill(s, p)
            for p, v in zip(phis, vals):
                if v is None or v == ("undef",):
                    v = ("v", p)
                if p in rngs:
                    s.env[p] = ("v", p)
                    if rngs[p] != (-INF, INF, frozenset()):
                        s.facts[("v", p)] = rngs[p]
                    continue
                if isinstance(v, tuple) and (contains_stale(v)):
                    # a value from the previous iteration: name it by the phi itself
                    s.env[p] = ("v", p)
                    if p in pre and pre[p][:2] != (-INF, INF):
                        s.facts[("v", p)] = pre[p]
                else:
                    s.env[p] = v
        self._enter(s, tgt, heap)


def contains_stale(av):
    if isinstance(av, tuple):
        if av and av[0] == "stale":
            return True
        return any(contains_stale(x) for x in av if isinstance(x, tuple))
    return False


def trace_str(tr, n=25):
    out = []
    while tr and len(out) < n:
        out.append(tr[1])
        tr = tr[0]
    return " > ".join(reversed(out))


def _concrete(v):
    return isinstance(v, int) or isinstance(v, tuple) and v[0] == "a" and all(not isinstance(e[1], tuple) for e in v[2])


def _constgep(v):
    """The object and the fields which v points into at a constant offset."""
    fs = ()
    while isinstance(v, Inst) and v.op == "getelementptr":
        if not all(isinstance(o, Const) for o in v.ops[1:]):
            return None
        if v.ety.k == "named" and len(v.ops) > 2:
            fs = ((v.ety.a, v.ops[2].v),) + fs
        v = v.ops[0]
    return (v, fs) if fs or isinstance(v, GRef) else None


def tdiv(a, b):
    """Integer division truncating towards zero."""
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class ModSets:
    """Transitive (fields, globals, raw-pointer) write sets of functions."""

    def __init__(self, mod, indirect_none=True):
        self.mod = mod
        self.local, self.calls = {}, {}
        self.memo = {}

    def _addr(self, o):
        """static access path of a pointer operand: (root, [(S,F)...])"""
        fs = []
        for _ in range(60):
            if isinstance(o, (Inst, CExpr)) and o.op == "getelementptr":
                t = o.ety
                here = []
                for k, i in enumerate(o.ops[2:]):
                    rt = self.mod.resolve(t)
                    if rt.k == "struct":
                        here.append(self.mod.field(t.a if t.k == "named" else "?", i.v))
                        t = rt.a[i.v]
                    else:
                        t = rt.b
                fs = here + fs
                o = o.ops[0]
            elif isinstance(o, Inst) and o.op == "bitcast":
                o = o.ops[0]
            else:
                break
        return o, fs

    def of(self, f):
        if f.name in self.memo:
            return self.memo[f.name]
        seen, st = set(), [f]
        fields, globs, raw = set(), set(), False
        while st:
            g = st.pop()
            if g.name in seen:
                continue
            seen.add(g.name)
            if g.name not in self.local:
                self._local(g)
            a, b, c = self.local[g.name]
            fields |= a
            globs |= b
            raw |= c
            st += self.calls[g.name]
        self.memo[f.name] = (fields, globs, raw)
        return self.memo[f.name]

    def _local(self, f):
        fields, globs, raw, calls = set(), set(), False, []
        for i in f.insts():
            tgt = None
            if i.op == "store":
                tgt = i.ops[1]
            elif i.op == "call" and isinstance(i.callee, GRef):
                n = i.callee.name
                if n in self.mod.fns:
                    calls.append(self.mod.fns[n])
                elif n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                    tgt = i.ops[0]
                elif n not in NOEFFECT and not n.startswith("llvm."):
                    for o in i.ops:
                        if o.ty.k == "ptr":
                            r, fs = self._addr(o)
                            if fs:
                                fields.add(fs[-1])
                            elif isinstance(r, GRef):
                                globs.add(r.name)
                    continue
            if tgt is None:
                continue
            r, fs = self._addr(tgt)
            if fs:
                fields.add(fs[-1])
            if isinstance(r, GRef):
                globs.add(r.name)
            elif not fs and not (isinstance(r, Inst) and r.op == "alloca"):
                raw = True
        self.local[f.name] = (fields, globs, raw)
        self.calls[f.name] = calls
