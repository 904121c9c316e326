"""Inliner over the parsed IR, so that helper extraction / merging does not matter to the analyses."""
from ir import *


class _Clone:
    def __init__(self, mod, want, maxinst):
        self.mod, self.want, self.maxinst, self.n, self.cnt = mod, want, maxinst, 0, 0

    def body(self, f, args, chain, newf):
        """Clone f's body; returns (entry, returns[(value, block)])."""
        vmap = dict(zip(f.args, args))
        first, last = {}, {}
        new = []
        for b in f.blocks:
            nb = Block(f"{b.name}.{self.n}", newf)
            self.n += 1
            first[b] = nb
            last[b] = nb
        rets, fix = [], []
        for b in f.blocks:
            cur = first[b]
            newf.blocks.append(cur)
            for ins in b.insts:
                callee = None
                if ins.op == "call" and isinstance(ins.callee, GRef):
                    c = self.mod.fns.get(ins.callee.name)
                    if c is not None and c is not f and c.name != self.root and c.name not in [x[0] for x in chain] and (not c.vararg or getattr(self.want, "vararg", False)) \
                            and len(c.args) <= len(ins.ops) and self.want(c, chain) and self.cnt < self.maxinst:
                        callee = c
                if callee is not None:
                    ph = Inst("call")     # placeholder used to resolve operands later
                    ph.ops = list(ins.ops)
                    fixargs = _Lazy(vmap, ins.ops)
                    cont = Block(f"{b.name}.c{self.n}", newf)
                    self.n += 1
                    br = Inst("br")
                    br.block = cur
                    br.dbg, br.fnsrc, br.chain = ins.dbg, ins.fnsrc, chain
                    cur.insts.append(br)
                    sub_args = [fixargs[i] for i in range(len(ins.ops))]
                    ent, rs = self.body(callee, sub_args, chain + ((callee.name, ins),), newf)
                    br.targets = [ent]
                    newf.blocks.append(cont)
                    for v, rb in rs:
                        rb.term.targets = [cont]
                    if callee.ret.k != "void" and rs:
                        if len(rs) == 1:
                            vmap[ins] = rs[0][0]
                        else:
                            phi = Inst("phi")
                            phi.ty, phi.incoming, phi.block = callee.ret, list(rs), cont
                            phi.dbg, phi.fnsrc, phi.chain, phi.name = ins.dbg, ins.fnsrc, chain, "ret." + callee.src
                            phi.flags = "ret"
                            cont.insts.append(phi)
                            vmap[ins] = phi
                            fix.append((phi, None))
                    elif ins.ty.k != "void":
                        vmap[ins] = Undef(ins.ty)
                    cur = cont
                    last[b] = cont
                    continue
                if ins.op == "ret" and chain:
                    br = Inst("br")
                    br.block, br.dbg, br.fnsrc, br.chain = cur, ins.dbg, ins.fnsrc, chain
                    br.targets = []
                    cur.insts.append(br)
                    rets.append((_LazyV(vmap, ins.ops[0]) if ins.ops else None, cur))
                    continue
                ni = Inst(ins.op)
                for a in ("ty", "name", "dbg", "pred", "ety", "callee", "var", "fnsrc", "flags"):
                    setattr(ni, a, getattr(ins, a))
                ni.block, ni.chain = cur, chain
                ni.ops = list(ins.ops)
                self.cnt += 1
                if ins.incoming is not None:
                    ni.incoming = list(ins.incoming)
                if ins.targets is not None:
                    ni.targets = [first[t] for t in ins.targets]
                if ins.cases is not None:
                    ni.cases = [(c, first[t]) for c, t in ins.cases]
                cur.insts.append(ni)
                vmap[ins] = ni
                fix.append((ni, ins))

        def res(v):
            for _ in range(200):
                if isinstance(v, (Inst, Arg)) and v in vmap:
                    return vmap[v]
                return v
        self.pending.append((fix, vmap, last))
        return first[f.blocks[0]], rets

    def run(self, f):
        newf = Function(f.name)
        newf.src, newf.file, newf.line, newf.ret, newf.args = f.src, f.file, f.line, f.ret, f.args
        self.pending = []
        self.root = f.name
        self.body(f, f.args, (), newf)

        def deref(v):
            while isinstance(v, _LazyV):
                v = v.get()
            return v
        for fix, vmap, last in self.pending:
            for ni, old in fix:
                if old is None:
                    ni.incoming = [(deref(v), b) for v, b in ni.incoming]
                    continue
                ni.ops = [deref(vmap.get(o, o)) if isinstance(o, (Inst, Arg)) else o for o in ni.ops]
                if isinstance(ni.callee, (Inst, Arg)):
                    ni.callee = deref(vmap.get(ni.callee, ni.callee))
                if ni.incoming is not None:
                    ni.incoming = [(deref(vmap.get(v, v)) if isinstance(v, (Inst, Arg)) else v, last[b]) for v, b in ni.incoming]
        # some vmap values may be lazies pointing at lazies
        for b in newf.blocks:
            for ni in b.insts:
                ni.ops = [deref(o) for o in ni.ops]
                if ni.incoming is not None:
                    ni.incoming = [(deref(v), q) for v, q in ni.incoming]
        # blocks whose terminator lost its target (callee never returns)
        for b in newf.blocks:
            t = b.insts[-1] if b.insts else None
            if t is None or t.targets is None:
                u = Inst("unreachable")
                u.targets, u.block = [], b
                b.insts.append(u)
            elif t.op == "br" and not t.targets:
                u = Inst("unreachable")
                u.targets, u.block = [], b
                b.insts[-1] = u
        Module._prune(newf)
        return newf


class _LazyV:
    __slots__ = ("m", "v")

    def __init__(self, m, v):
        self.m, self.v = m, v

    def get(self):
        if isinstance(self.v, (Inst, Arg)) and self.v in self.m:
            return self.m[self.v]
        return self.v


class _Lazy:
    def __init__(self, m, ops):
        self.m, self.ops = m, ops

    def __getitem__(self, i):
        return _LazyV(self.m, self.ops[i])


def inline(mod, f, want=lambda c, chain: True, maxinst=60000):
    return _Clone(mod, want, maxinst).run(f)
