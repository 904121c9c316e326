"""Dominators, natural loops and counted-loop recognition over a Function."""
from ir import *


def rpo(fn):
    order, seen = [], {fn.blocks[0]}
    st = [(fn.blocks[0], iter(fn.blocks[0].succs))]
    while st:
        b, it = st[-1]
        for t in it:
            if t not in seen:
                seen.add(t)
                st.append((t, iter(t.succs)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    return order


def preds(fn, order=None):
    p = {b: [] for b in (order or fn.blocks)}
    for b in p:
        for s in b.succs:
            if s in p and b not in p[s]:
                p[s].append(b)
    return p


class CFG:
    def __init__(self, fn):
        self.fn = fn
        self.order = rpo(fn)
        self.n = {b: i for i, b in enumerate(self.order)}
        self.preds = preds(fn, self.order)
        self.idom = self._idom(self.order, self.preds)
        self._loops()

    @staticmethod
    def _idom(order, prd):
        n = {b: i for i, b in enumerate(order)}
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in prd[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x is not y:
                                while n[x] > n[y]:
                                    x = idom[x]
                                while n[y] > n[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) is not new:
                    idom[b] = new
                    ch = True
        return idom

    def dom(self, a, b):
        """a dominates b"""
        while True:
            if a is b:
                return True
            p = self.idom.get(b)
            if p is None or p is b:
                return False
            b = p

    def _loops(self):
        self.loops = {}          # header -> set of blocks
        self.latches = {}
        for b in self.order:
            for s in b.succs:
                if s in self.n and self.dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    self.latches.setdefault(s, []).append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += self.preds[x]

    def loops_of(self, b):
        """Headers of the loops containing b, innermost first."""
        r = [h for h, body in self.loops.items() if b in body]
        r.sort(key=lambda h: len(self.loops[h]))
        return r

    def counted(self, h):
        """Counted-loop facts of the loop headed by h: list of (phi, init, step) of its induction variables."""
        out = []
        body = self.loops[h]
        for p in h.insts:
            if p.op != "phi":
                break
            init, step, ok = None, None, True
            for v, q in p.incoming:
                if q in body:
                    w = strip(v)
                    s = self._step(p, w)
                    if s is None or (step is not None and step != s):
                        ok = False
                    step = s
                else:
                    if init is not None and init is not v and not (isinstance(init, Const) and isinstance(v, Const) and init.v == v.v):
                        ok = False
                    init = v
            if ok and step:
                out.append((p, init, step))
        return out

    def _step(self, p, w, depth=0):
        if isinstance(w, Inst) and w.op in ("add", "sub") and isinstance(w.ops[1], Const):
            b = strip(w.ops[0])
            c = w.ops[1].v if w.op == "add" else -w.ops[1].v
            if w.ty.k == "int" and c >= 1 << (w.ty.a - 1):
                c -= 1 << w.ty.a
            if b is p:
                return c
        if isinstance(w, Inst) and w.op == "getelementptr" and len(w.ops) == 2 and isinstance(w.ops[1], Const) and strip(w.ops[0]) is p:
            return w.ops[1].v
        if isinstance(w, Inst) and w.op == "phi" and depth < 4:
            r = {self._step(p, strip(x), depth + 1) for x, _ in w.incoming}
            if len(r) == 1:
                return r.pop()
        return None

    def exits(self, h):
        body = self.loops[h]
        return [(b, s) for b in body for s in b.succs if s not in body]

    def bound(self, h, p):
        """Exit tests of the form p REL value: list of (block, stay_pred, other operand) with p on the left."""
        out = []
        body = self.loops[h]
        for b, s in self.exits(h):
            t = b.insts[-1]
            if t.op != "br" or len(t.targets) != 2:
                continue
            c, neg = t.ops[0], False
            while isinstance(c, Inst) and c.op == "xor" and isinstance(c.ops[1], Const):
                c, neg = c.ops[0], not neg
            if not (isinstance(c, Inst) and c.op == "icmp"):
                continue
            stay = t.targets[0] in body
            pred, a, x = c.pred, strip(c.ops[0]), strip(c.ops[1])
            off = 0
            if a is not p and x is p:
                a, x = x, a
                pred = SWAPP[pred]
            elif a is not p:
                s2 = self._step(p, a)
                if s2 is not None:
                    off, a = s2, p
                else:
                    s2 = self._step(p, x)
                    if s2 is not None:
                        off, x = s2, a
                        pred = SWAPP[pred]
                        a = p
            if a is not p:
                continue
            if stay == neg:
                pred = NEGP[pred]
            out.append((b, pred, x, off))
        return out


NEGP = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAPP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def strip(v):
    while isinstance(v, Inst) and v.op in ("zext", "sext", "trunc", "bitcast", "freeze"):
        v = v.ops[0]
    return v
