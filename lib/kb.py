"""Roles and common machinery for the remapping engine (keyboard.c)."""
from ir import *
from inline import inline
from esp import *
from cfg import CFG, strip

KFILE = "src/keyboard.c"


def canon(av):
    """An index without the casts around it."""
    while isinstance(av, tuple) and av[0] in ("sx", "tr"):
        av = av[1]
    return av


def elem(addr, structfield):
    """For ...<structfield>[i]...: the index i (canonical), or None."""
    if not (isinstance(addr, tuple) and addr[0] == "a"):
        return None
    p = addr[2]
    for k, e in enumerate(p):
        if e[0] == "f" and (e[1], e[2]) == structfield:
            if k + 1 < len(p) and p[k + 1][0] == "x":
                return canon(p[k + 1][1])
            return 0
    return None


def hasfield(addr, sf):
    return isinstance(addr, tuple) and addr[0] == "a" and any(e[0] == "f" and (e[1], e[2]) == sf for e in addr[2])


def enclosing(m, pred):
    return [f for f in m.fns.values() if pred(f)]


def descriptor_fn(m):
    """The function that carries an action out: it switches over descriptor.op on its descriptor argument."""
    best = None
    for f in m.fns.values():
        if f.file != KFILE:
            continue
        n = 0
        for b in f.blocks:
            t = b.insts[-1]
            if t.op == "switch":
                v = t.ops[0]
                while isinstance(v, Inst) and v.op in ("zext", "sext", "trunc"):
                    v = v.ops[0]
                if isinstance(v, Inst) and v.op == "load":
                    a = v.ops[0]
                    if isinstance(a, Inst) and a.op == "getelementptr":
                        t2 = a.ety
                        if t2.k == "named" and m.field(t2.a, a.ops[-1].v if isinstance(a.ops[-1], Const) else 0) == ("descriptor", "op"):
                            n += len(t.cases)
        if n and (best is None or n > best[0]):
            best = (n, f)
    if best is None:
        raise IRError("no function switches over descriptor.op in keyboard.c")
    return best[1]


def event_fn(m):
    """The engine step: the function kbd_process_events calls for every event (code, pressed, time)."""
    k = m.fn("kbd_process_events")
    if k is None:
        raise IRError("kbd_process_events not found")
    d = descriptor_fn(m)
    seen, st, reach = set(), [k], []
    # the callee of kbd_process_events from which the descriptor function is reachable, with the most integer arguments
    cands = []
    work, done = [k], set()
    while work:
        f = work.pop()
        if f in done:
            continue
        done.add(f)
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, GRef) and i.callee.name in m.fns:
                g = m.fns[i.callee.name]
                if g.file == KFILE and g is not d:
                    if len(g.args) >= 4 and g is not k:
                        cands.append(g)
                    elif g not in done:
                        work.append(g)
    if not cands:
        raise IRError("kbd_process_events calls no engine step")
    return cands[0]


def argnamed(f, names, idx):
    for a in f.args:
        if a.name in names:
            return a
    return f.args[idx] if idx < len(f.args) else None


def local_want(m, cut=()):
    return lambda c, chain: c.file == KFILE and c.name not in cut


def ops(m):
    m.enum("OP_LAYER")
    return {k: v for k, v in m._enums.items() if k.startswith("OP_")}


class DescEngine(Engine):
    """The descriptor function specialised to one op and direction."""

    def __init__(self, mod, fn, ms, op, pressed):
        self.op, self.pressed = op, pressed
        Engine.__init__(self, mod, fn, ms)

    def roles(self):
        fn = self.fn
        d = next((a for a in fn.args if a.name == "d"), None)
        if d is None:
            ptrs = [a for a in fn.args if a.ty.k == "ptr"]
            d = ptrs[1]
        p = next((a for a in fn.args if a.name == "pressed"), None)
        if p is None:
            ints = [a for a in fn.args if a.ty.k == "int"]
            p = ints[-2]
        return d, p

    def seed(self, s):
        d, p = self.roles()
        self.darg = d
        s.env[p] = self.pressed
        s.mem[(("a", ("v", d), (("f", "descriptor", "op"),)), 4)] = self.op

    def _mayalias(self, a, b):
        # the action handed to the engine is a copy (or an immutable auxiliary action): stores to the cache do not change it
        for x in (a, b):
            if isinstance(x, tuple) and (x[1] if x[0] == "a" else x) == ("v", self.darg):
                y = b if x is a else a
                if not (isinstance(y, tuple) and (y[1] if y[0] == "a" else y) == ("v", self.darg)):
                    return False
        return Engine._mayalias(self, a, b)


def key_fn(m):
    """The engine's single point of key output: calls output.send_key and records keystate, for one key (no loop)."""
    c = []
    ms = ModSets(m)
    for f in m.fns.values():
        if f.file != KFILE or CFG(f).loops:
            continue
        ind = [i for i in f.insts() if i.op == "call" and not isinstance(i.callee, GRef)]
        st = [i for i in f.insts() if i.op == "store" and ms._addr(i.ops[1])[1][-1:] == [("keyboard", "keystate")]]
        if ind and st:
            c.append(f)
    return c[0] if len(c) == 1 else None
