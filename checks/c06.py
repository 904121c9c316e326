"""C06: activation accounting. For every action (op, press/release) every path of the engine's action function, with its
local helpers inlined, is simulated symbolically. Per layer index the automaton keeps B = change of `active` minus change of
`toggled` minus change of `oneshot_depth`; hold actions must end with B = +1 (press) / -1 (release) on exactly the layer named by
the action, every other action with B = 0, a swap may move one hold together with the cached action. Loops over the layers
that consume one-shots or toggles must cover all layers, not stop early, and leave the counter at zero."""
from kb import *

LS = ("keyboard", "layer_state")
HOLD = ("OP_LAYER", "OP_LAYERM", "OP_OVERLOAD", "OP_ONESHOT", "OP_ONESHOTM")
CONSUME = ("OP_KEYSEQUENCE", "OP_MACRO", "OP_MACRO2", "OP_COMMAND", "OP_TOGGLE", "OP_TOGGLEM", "OP_CLEAR", "OP_CLEARM", "OP_LAYOUT")
CLEARS = ("OP_CLEAR", "OP_CLEARM", "OP_LAYOUT")
FLD = {"active": "active", "toggled": "toggled", "oneshot_depth": "oneshot"}


class Balance(DescEngine):
    def initial(self):
        return ((), frozenset())     # balances, flags

    def __init__(self, mod, fn, ms, op, pressed, cfg=None, layerloops=None):
        self.cfg = cfg or CFG(fn)
        self.ll = layerloops if layerloops is not None else layer_loops(mod, fn, self.cfg)
        self.bad = []
        self.exitstates = []
        if op is None:
            self.seed = lambda s: None
            self._mayalias = lambda a, b: Engine._mayalias(self, a, b)
        DescEngine.__init__(self, mod, fn, ms, op, pressed)

    def bump(self, s, idx, d):
        if d:
            m = dict(s.auto[0])
            m[idx] = m.get(idx, 0) + d
            if not m[idx]:
                del m[idx]
            s.auto = (tuple(sorted(m.items(), key=repr)), s.auto[1])

    def runaway(self, s, ins):
        """A loop that leaves more and more layers unbalanced: no need to follow it any further."""
        b = s.auto[0]
        if len(b) > 3 or any(abs(v) > 3 for k, v in b):
            self.report(s, ins, "leaves activations unaccounted for on every layer it visits")
            return True
        return False

    def flag(self, s, f):
        s.auto = (s.auto[0], s.auto[1] | {f})

    def rename(self, auto, tok, stale):
        b = auto[0]
        m = {}
        for k, v in b:
            k2 = subst(k, tok, stale) if isinstance(k, tuple) else k
            m[k2] = m.get(k2, 0) + v
        return (tuple(sorted(((k, v) for k, v in m.items() if v), key=repr)), auto[1])

    def on_inst(self, s, ins):
        if ins.op != "store":
            return
        addr = self.val(s, ins.ops[1])
        lf = lastfield(addr)
        if lf == ("keyboard", "oneshot_latch"):
            self.flag(s, "latch0" if self.val(s, ins.ops[0]) == 0 else "latch1")
            return
        if hasfield(addr, ("keyboard", "cache")) and hasfield(addr, ("cache_entry", "d")):
            if lf == ("descriptor", "op"):
                self.flag(s, ("cop", self.val(s, ins.ops[0])))
            elif lf == ("descriptor", "args") and addr[2][-1] == ("f", "descriptor", "args"):
                self.flag(s, ("cidx", canon(self.val(s, ins.ops[0]))))
            return
        if lf is None or lf[0] != "keyboard.layer_state" or lf[1] not in FLD:
            return
        idx = elem(addr, LS)
        w = self.width(ins.ops[0].ty)
        new = self.val(s, ins.ops[0])
        old = s.mem.get((addr, w))
        kind = FLD[lf[1]]
        self.events += 1
        if kind == "toggled":
            out = []
            for n in self._fork(s, old, addr, w):
                o = self.truth(n, n.mem[(addr, w)]) if (addr, w) in n.mem else None
                for n2 in self._forkv(n, new):
                    t = self.truth(n2, new)
                    self.bump(n2, idx, -(int(t) - int(o)))
                    if t is False:
                        self.flag(n2, "tclear")
                    if not self.runaway(n2, ins):
                        out.append(n2)
            return out
        if old is None:
            # a counter overwritten without being read
            delta = None
        else:
            delta = None
            if isinstance(new, int) and isinstance(old, int):
                delta = new - old
            elif not isinstance(new, int):
                a, b = (new[1], new[2]) if new[0] == "+" else (new, 0)
                c, d = (old[1], old[2]) if isinstance(old, tuple) and old[0] == "+" else (old, 0)
                if a == c:
                    delta = b - d
            else:
                c = self.const(s, old)
                if c is not None:
                    delta = new - c
        if delta is None:
            if kind == "active" and isinstance(new, int):
                self.flag(s, ("aset", new, idx if new else 0))
                if new == 0 and not self._is_layout(s, idx):
                    self.report(s, ins, "activation count of a layer that need not be a layout is overwritten with 0")
                if new and "azero-after" in s.auto[1]:
                    pass
            else:
                self.report(s, ins, f"{lf[1]} is overwritten with an unrelated value")
            return
        self.bump(s, idx, delta if kind == "active" else -delta)
        if self.runaway(s, ins):
            return False
        if kind == "oneshot":
            self.flag(s, "oneshot+" if delta > 0 else "oneshot-")

    def _is_layout(self, s, idx):
        want = self.mod.enum("LT_LAYOUT")
        for (a, w), v in s.mem.items():
            if lastfield(a) == ("layer", "type") and elem(a, ("config", "layers")) == idx and self.const(s, v) == want:
                return True
        return False

    def _fork(self, s, old, addr, w):
        if old is None:
            v = ("v", object())
            # unknown previous value: a fresh token
            out = []
            for x in (0, 1):
                n = s.copy()
                n.mem[(addr, w)] = x
                out.append(n)
            return out
        return self._forkv(s, old)

    def _forkv(self, s, v):
        if self.truth(s, v) is not None:
            return [s]
        out = []
        for want in (True, False):
            n = s.copy()
            if self.assume(n, v, want):
                out.append(n)
        return out

    def report(self, s, ins, msg):
        self.bad.append((ins, msg, trace_str(s.trace)))

    def on_exit(self, s, t):
        if t.op == "ret":
            self.exitstates.append((s, t))

    def _enter(self, s, b, heap):
        if b in self.ll:
            self.flag(s, ("loop", b))
        Engine._enter(self, s, b, heap)

    def _edge(self, s, b, tgt, t, heap, w):
        L = self.ll.get(tgt)
        if L and b in self.cfg.loops[tgt] and "oneshot_depth" in L["fields"]:
            p = L["phi"]
            if p is not None:
                for (a, wd), v in s.mem.items():
                    if lastfield(a) == ("keyboard.layer_state", "oneshot_depth") and elem(a, LS) == canon(self.val(s, p)):
                        l, h, e = self.rng(s, v)
                        if not (l == h == 0) and "oneshot-" in s.auto[1]:
                            self.report(s, L["ins"], "the loop moves to the next layer although one-shot activations of this one may remain")
        Engine._edge(self, s, b, tgt, t, heap, w)


def layer_loops(m, fn, cfg):
    """Loops whose induction variable indexes layer_state in a store to active/toggled/oneshot_depth."""
    ms = ModSets(m)
    out = {}
    for b in cfg.order:
        for i in b.insts:
            if i.op != "store":
                continue
            root, fs = ms._addr(i.ops[1])
            if not fs or fs[-1][0] != "keyboard.layer_state" or fs[-1][1] not in FLD:
                continue
            # index operand
            g = i.ops[1]
            idx = None
            while isinstance(g, Inst) and g.op == "getelementptr":
                t = g.ety
                for o in g.ops[2:]:
                    rt = m.resolve(t)
                    if rt.k == "struct":
                        t = rt.a[o.v]
                    else:
                        idx = strip(o)
                        t = rt.b
                if len(g.ops) == 2 and not isinstance(g.ops[1], Const):
                    idx = strip(g.ops[1])
                g = g.ops[0]
            for h in cfg.loops_of(b):
                for p, init, step in cfg.counted(h):
                    if p is idx:
                        L = out.setdefault(h, dict(fields=set(), phi=p, init=init, step=step, ins=i, stores=[]))
                        L["fields"].add(fs[-1][1])
                        L["stores"].append(i)
    return out


def check_loops(ctx, m, fn, cfg, ll):
    for h, L in ll.items():
        ctx.count("layer_loops")
        p = L["phi"]
        what = "/".join(sorted(L["fields"]))
        bs = cfg.bound(h, p)
        if L["step"] == 1 and isinstance(L["init"], Const) and L["init"].v > 1:
            ctx.violation(f"loop-start:{L['ins'].fnsrc}:{what}", f"the loop over the layers starts at {L['init'].v} and skips layers", m.where(L["ins"]))
        if L["step"] == 1:
            for b, pred, x, off in bs:
                if isinstance(x, Inst) and x.op in ("sub", "add") and isinstance(x.ops[1], Const) and reads_nr_layers(m, x.ops[0]):
                    c = x.ops[1].v if x.op == "add" else -x.ops[1].v
                    if c >= 1 << 31:
                        c -= 1 << x.ty.a
                    if c + (1 if pred in ("sle", "ule") else 0) - off < 0:
                        ctx.violation(f"loop-end:{L['ins'].fnsrc}:{what}", "the loop over the layers stops before the last layer", m.where(L["ins"]))
                elif isinstance(x, Const) and x.v < m.enum("MAX_LAYERS"):
                    ctx.violation(f"loop-end:{L['ins'].fnsrc}:{what}", f"the loop over the layers stops at {x.v}", m.where(L["ins"]))
        # early exits after a change
        okexits = {b for b, *_ in bs}
        body = cfg.loops[h]
        for st in L["stores"]:
            seen, work = set(), [st.block]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                for y in x.succs:
                    if y is h:
                        continue
                    if y in body:
                        work.append(y)
                    elif x not in okexits and y.insts and y.insts[-1].op != "unreachable":
                        ctx.violation(f"loop-break:{L['ins'].fnsrc}:{what}", "the loop over the layers is left as soon as one layer was changed",
                                      m.where(st))


def reads_nr_layers(m, v):
    v = strip(v)
    if isinstance(v, Inst) and v.op == "load":
        _, fs = ModSets(m)._addr(v.ops[0])
        return bool(fs) and fs[-1] == ("config", "nr_layers")
    return False


def describe(e, idx):
    d = getattr(e, "darg", None)
    if isinstance(idx, tuple) and idx[0] == "v":
        x = idx[1]
        if isinstance(x, Arg):
            return x.name
        if x.op == "load":
            root, fs = ModSets(e.mod)._addr(x.ops[0])
            g = x.ops[0]
            if fs and fs[-1] == ("descriptor", "args") and root is d:
                k = g.ops[-1].v if isinstance(g, Inst) and g.op == "getelementptr" and len(g.ops) > 3 - 0 and isinstance(g.ops[-1], Const) else 0
                return f"args[{k}]"
            return "load " + ".".join(f"{a}.{b}" for a, b in fs)
    return str(idx)[:60]


def argindex(e, s, idx):
    """k such that idx is the action's k-th argument, or None."""
    for (a, w), v in s.mem.items():
        if isinstance(a, tuple) and a[0] == "a" and a[1] == ("v", e.darg) and hasfield(a, ("descriptor", "args")):
            if canon(v) == idx or v == idx:
                return elem(a, ("descriptor", "args"))
    if isinstance(idx, tuple) and idx[0] == "v" and isinstance(idx[1], Inst) and describe(e, idx).startswith("args["):
        return int(describe(e, idx)[5:-1])
    return None


def run(ctx):
    m = ctx.mod
    d = descriptor_fn(m)
    opt = ops(m)
    ms = ModSets(m)
    fn = inline(m, d, local_want(m))
    cfg = CFG(fn)
    ll = layer_loops(m, fn, cfg)

    def structure(ctx):
        ctx.need(any("oneshot_depth" in L["fields"] for L in ll.values()), "no loop consumes one-shot activations")
        ctx.need(any("toggled" in L["fields"] for L in ll.values()), "no loop clears toggled layers")
        check_loops(ctx, m, fn, cfg, ll)
    ctx.rule("loops that consume one-shot or toggled activations cover every layer and are not left early", structure)

    osl = {h for h, L in ll.items() if "oneshot_depth" in L["fields"]}
    tgl = {h for h, L in ll.items() if "toggled" in L["fields"]}

    def one(ctx, item):
        name, op, pressed = item
        e = Balance(m, fn, ms, op, pressed, cfg, ll)
        e.run()
        ctx.count("actions_simulated")
        ctx.count("states", sum(len(x) for x in e.states.values()))
        ctx.count("counter_updates", e.events)
        pr = "press" if pressed else "release"
        for ins, msg, tr in e.bad:
            ctx.violation(f"{name}:{pr}:{msg}", f"{name} {pr}: {msg}", m.where(ins), tr)
        ctx.need(e.exitstates, f"{name}/{pr}: no path returns")
        for s, t in e.exitstates:
            ctx.count("exit_states")
            judge(ctx, m, e, name, pr, pressed, s, t, osl, tgl)

    def ops_rule(ctx):
        ctx.pmap(one, [(n, o, p) for n, o in sorted(opt.items(), key=lambda x: x[1]) for p in (1, 0)])
    ctx.rule("per action and direction, activation counts balance on every path", ops_rule)

    def step_rule(ctx):
        ev = event_fn(m)
        want = lambda c, chain: c.file == KFILE and c.name != d.name and c.src != "kbd_process_events"
        f2 = inline(m, ev, want)
        cfg2 = CFG(f2)
        ll2 = layer_loops(m, f2, cfg2)
        check_loops(ctx, m, f2, cfg2, ll2)
        e = Balance(m, f2, ms, None, 0, cfg2, ll2)
        e.run()
        ctx.count("states", sum(len(x) for x in e.states.values()))
        for ins, msg, tr in e.bad:
            ctx.violation(f"step:{msg}", f"event step: {msg}", m.where(ins), tr)
        for s, t in e.exitstates:
            for idx, b in s.auto[0]:
                ctx.violation(f"step:{b}", f"the event step changes a layer's activation count by {b} outside any action", m.where(t), trace_str(s.trace))
    ctx.rule("outside actions the event step leaves activation counts balanced", step_rule)


def judge(ctx, m, e, name, pr, pressed, s, t, osl, tgl):
    bal, fl = dict(s.auto[0]), s.auto[1]
    tr = trace_str(s.trace)
    def bad(key, msg):
        ctx.violation(f"{name}:{pr}:{key}", f"{name} {pr}: {msg}", m.where(t) if not s.trace else s.trace[1].split("=")[0], tr)
    visited = {x[1] for x in fl if isinstance(x, tuple) and x[0] == "loop"}
    if name in HOLD:
        want = 1 if pressed else -1
        if len(bal) != 1:
            bad("count", f"changes the hold count of {len(bal)} layers ({', '.join(describe(e, k) + ':%+d' % v for k, v in bal.items())}), expected exactly one ({want:+d})")
        else:
            (k, v), = bal.items()
            if v != want:
                bad("count", f"leaves {v:+d} activations unaccounted for, expected {want:+d}")
            if argindex(e, s, k) != 0:
                bad("layer", f"holds layer {describe(e, k)} instead of the layer named by the action")
    elif name in ("OP_SWAP", "OP_SWAPM") and pressed and bal:
        dl = [k for k, v in bal.items() if v == -1]
        nw = [k for k, v in bal.items() if v == 1]
        if len(bal) != 2 or len(dl) != 1 or len(nw) != 1 or argindex(e, s, nw[0]) != 0 or not (dl[0][0] == "v" and isinstance(dl[0][1], Arg)):
            bad("count", "swap leaves activations unbalanced: " + ", ".join(describe(e, k) + ":%+d" % v for k, v in bal.items()))
        else:
            op = [x[1] for x in fl if isinstance(x, tuple) and x[0] == "cop"]
            ix = [x[1] for x in fl if isinstance(x, tuple) and x[0] == "cidx"]
            hold = m.enum("OP_LAYER")
            if hold not in op or len(op) != 1:
                bad("cache", "swap moves a held layer but the remembered action of the holding key is not rewritten to release the new layer")
            elif nw[0] not in ix:
                bad("cache-idx", "swap moves a held layer but the holding key would release a different layer")
    elif bal:
        bad("count", "leaves activations unaccounted for: " + ", ".join(describe(e, k) + ":%+d" % v for k, v in bal.items()))
    if pressed and name in CONSUME:
        if not (osl & visited):
            bad("oneshot", "does not consume pending one-shot layers")
        elif "latch0" not in fl:
            bad("latch", "consumes pending one-shot layers but leaves the one-shot latch set")
    if pressed and name in CLEARS and not (tgl & visited):
        bad("toggle", "does not clear toggled layers")
    if name in ("OP_ONESHOT", "OP_ONESHOTM"):
        if pressed and "latch1" not in fl:
            bad("latch1", "does not arm the one-shot latch")
