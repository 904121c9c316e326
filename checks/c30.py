"""C30: shipped layouts and examples. Every shipped layout and example is parsed by an independent reader of the documented file format, and every
section head, key, alias, option and action in it is looked up in the tables extracted from the sources' LLVM IR (keys, actions and the kinds of their
arguments, characters, built-in layers and aliases, options compared in the option parser), and counted against the capacities of the structures."""
import os, re, unicodedata
from seq import *
import c13, c21

ASSUMPTIONS = ["a layout is included in a configuration that does not itself exceed a capacity"]
MODS = "CMASG"


def sections(text):
    """[(line, head, [(line, key, value)])] of a file in the documented format, and the lines outside any section."""
    out, stray = [], []
    for n, raw in enumerate(text.split("\n"), 1):
        line = raw.strip(" \t\r\v\f")
        if not line or line[0] == "#":
            continue
        if line[0] == "[" and line[-1] == "]":
            out.append((n, line[1:-1], []))
            continue
        i = line.find("=", 1)
        k, v = (line, None) if i < 0 else (line[:i].rstrip(" \t"), line[i + 1:].lstrip(" \t"))
        (out[-1][2] if out else stray).append((n, k, v))
    return out, stray


def split(s):
    """name(args) -> (name, [args]), None if malformed."""
    i = s.find("(")
    if i < 0:
        return None
    name, args, cur, lvl, j = s[:i], [], "", 0, i + 1
    while j < len(s):
        c = s[j]
        if c == "\\" and j + 1 < len(s):
            cur += s[j:j + 2]
            j += 2
            continue
        if c == "(":
            lvl += 1
        if c == ")":
            lvl -= 1
            if lvl < 0:
                if cur.strip():
                    args.append(cur.strip())
                return (name, args) if not s[j + 1:].strip() else None
        if c == "," and not lvl:
            args.append(cur.strip())
            cur = ""
        else:
            cur += c
        j += 1
    return None


class World:
    def __init__(self, ctx):
        m = self.m = ctx.mod
        self.names, self.index = set(), {}
        for i, (a, b, c) in enumerate(c21.table(m)):
            for x in (a, b, c):
                if a and x:
                    self.names.add(x.encode("latin1").decode("utf8", "replace"))
            for x in (a, b):
                if x:
                    self.index.setdefault(x.encode("latin1").decode("utf8", "replace"), i)
        g = ctx.need(m.globals.get("unicode_table"), "unicode_table not found")
        self.chars = {x.v & 0xffffffff for x in g.init.elems}
        acts, doc, R, bad = c13.grammar(ctx)
        self.acts = {}
        for n, x in acts.items():
            if x[0] == "expands":
                self.acts[n] = tuple(c13.kindof(w) for w in doc[n][0]) if n in doc else None
            else:
                self.acts[n] = c13.shape(x)
        text = ctx.need(c21.default_config(m), "the built-in configuration was not found")
        self.built, stray = sections(text)
        self.opts = set()
        f = ctx.need(m.fn("config_parse_string") or m.fn("config_parse"), "the configuration parser was not found")
        for h in closure(m, f):
            for k in m.fns.values():
                if k.src == h and k.file == "src/config.c":
                    self.opts |= c13.literals(m, k)
        S = m.struct("config")
        def cap(struct, field):
            t = m.fieldty(struct, field)
            return t.a if t.k == "arr" else None
        self.caps = {k: cap("config", k) for k in ("layers", "macros", "commands", "descriptors", "aliases", "ids")}
        self.caps["chords"] = cap("layer", "chords")
        self.caps["name"] = cap("layer", "name") - 1
        self.caps["keys"] = cap("chord", "keys")
        self.caps["constituents"] = cap("layer", "constituents")
        self.caps["alias"] = m.fieldty("config", "aliases").b.a - 1
        self.caps["sections"] = cap("ini", "sections")
        self.caps["entries"] = cap("ini_section", "entries")
        self.caps["section"] = cap("ini_section", "name") - 1
        self.caps["macro"] = cap("macro", "entries")
        self.caps["expression"] = m.macro("MAX_EXP_LEN")


class File:
    def __init__(self, ctx, w, path, layout):
        self.ctx, self.w, self.path, self.layout = ctx, w, path, layout
        self.n = dict(macros=0, commands=0, descriptors=0)

    def bad(self, line, key, msg):
        self.ctx.violation(f"{os.path.basename(self.path)}:{key}", msg, where=(self.path, line))

    def sequence(self, s):
        while len(s) > 2 and s[1] == "-" and s[0] in MODS:
            s = s[2:]
        return s in self.w.names

    def character(self, s):
        return len(s) == 1 and ord(s) > 127 and ord(s) in self.w.chars

    def macro(self, line, s, text):
        n = 0
        for tok in s.replace("\\n", "\n").replace("\\t", "\t").split(" "):
            if not tok:
                continue
            if self.sequence(tok):
                n += 1
            elif "+" in tok:
                for k in tok.split("+"):
                    if k and not re.fullmatch(r"\d+ms", k) and not self.sequence(k):
                        self.bad(line, f"macro:{tok}", f"the macro {text} names the unknown key {k}")
                    n += bool(k)
                n += 1
            elif re.fullmatch(r"\d+ms", tok):
                n += 1
            else:
                for c in tok:
                    n += 1
                    if ord(c) > 127 and ord(c) not in self.w.chars or ord(c) < 128 and c not in self.w.names and c not in "\n\t\b\f":
                        self.bad(line, f"U+{ord(c):04X}", f"the character {c!r} of the macro {text} is one keyd cannot type")
        if self.w.caps["macro"] and n > self.w.caps["macro"]:
            self.bad(line, f"macro-size:{text[:20]}", f"the macro {text} is too long")

    def action(self, line, s, top=True, what=None):
        if s == "":
            return
        if self.sequence(s):
            self.n["descriptors"] += not top
            return
        if s.startswith("command(") and s.endswith(")"):
            self.n["commands"] += 1
            self.n["descriptors"] += not top
            return
        if s.startswith("macro(") and s.endswith(")"):
            self.n["macros"] += 1
            self.n["descriptors"] += not top
            return self.macro(line, s[6:-1], s)
        if len(s) == 1 and ord(s) > 127:
            self.n["macros"] += 1
            self.n["descriptors"] += not top
            if not self.character(s):
                self.bad(line, f"U+{ord(s):04X}", f"{s!r} is no character keyd can type")
            return
        x = split(s)
        if x is None or x[0] not in self.w.acts:
            return self.bad(line, f"action:{s}", f"{s!r} is no key, character or action")
        self.n["descriptors"] += not top
        kinds = self.w.acts[x[0]]
        if kinds is None or None in kinds:
            return self.ctx.undecide(x[0], "its arguments are unknown")
        if len(kinds) != len(x[1]):
            return self.bad(line, f"action:{s}", f"{s!r} has {len(x[1])} arguments, {x[0]} takes {len(kinds)}")
        for k, a in zip(kinds, x[1]):
            t = self.layers.get(a)
            if k == "layer" and (t is None or t == "layout" or a == "main"):
                self.bad(line, f"layer:{a}", f"{s!r} names {a}, which is no layer")
            elif k == "layout" and a != "main" and t != "layout":
                self.bad(line, f"layout:{a}", f"{s!r} names {a}, which is no layout")
            elif k == "number" and not re.fullmatch(r"-?\d+", a):
                self.bad(line, f"number:{a}", f"{s!r}: {a} is no number")
            elif k == "action":
                self.action(line, a, False)
            elif k == "macro":
                self.n["macros"] += 1
                if a.startswith("macro(") and a.endswith(")"):
                    self.macro(line, a[6:-1], a)
                elif not self.sequence(a) and not self.character(a):
                    self.bad(line, f"macro:{a}", f"{s!r}: {a} is no macro")

    def head(self, line, h):
        name, _, typ = h.partition(":")
        if h in ("ids", "aliases", "global"):
            return
        if not name or len(h) > self.w.caps["section"] or len(h) > self.w.caps["name"]:
            return self.bad(line, f"section:{h}", f"[{h}] is no name of a section")
        if not re.fullmatch(r"[A-Za-z0-9_+-]+", name):
            return self.bad(line, f"section:{h}", f"[{h}] is taken for the head of a section")
        if name in self.layers:
            return
        if "+" in name:
            parts = [p for p in name.split("+") if p]
            for p in parts:
                if p not in self.layers:
                    self.bad(line, f"section:{h}", f"[{h}] combines {p}, which is no layer defined before")
            if typ:
                self.bad(line, f"section:{h}", f"[{h}] combines layers and has a type")
            if len(parts) > self.w.caps["constituents"]:
                self.bad(line, f"section:{h}", f"[{h}] combines too many layers")
            self.layers[name] = "composite"
        elif typ == "layout":
            self.layers[name] = "layout"
        else:
            if typ and not re.fullmatch(f"[{MODS}](-[{MODS}])*", typ):
                self.bad(line, f"section:{h}", f"[{h}]: {typ} is no type of a layer")
            self.layers[name] = "normal"

    def alias(self, line, k, v):
        if k not in self.w.index:
            self.bad(line, f"alias:{k}", f"{k!r}, which is given the alias {v}, is no key")
        elif v is None or len(v) > (self.w.caps["alias"] or 31):
            self.bad(line, f"alias:{k}", f"{v!r} cannot be the alias of {k}")
        else:
            self.aliases.add(v)

    def key(self, line, sec, k):
        if "+" in k and k != "+":
            ks = [x for x in k.split("+") if x]
            if not ks or len(ks) > self.w.caps["keys"]:
                self.bad(line, f"key:{k}", f"{k!r} is no chord")
            for x in ks:
                if x not in self.w.index:
                    self.bad(line, f"key:{k}", f"{x!r} is no key")
            self.chords[sec] = self.chords.get(sec, 0) + 1
            if self.chords[sec] > self.w.caps["chords"]:
                self.bad(line, f"chords:{sec}", f"[{sec}] has too many chords")
        elif k not in self.w.index and k not in self.aliases:
            self.bad(line, f"key:{k}", f"{k!r} is no key or alias")

    def run(self):
        self.layers, self.aliases, self.chords = {}, set(), {}
        for n, h, es in self.w.built:
            for i, k, v in es if h == "aliases" else ():
                self.alias(i, k, v)
            if h != "aliases":
                self.head(n, h)
        try:
            text = open(os.path.join(self.ctx.repo, self.path), "rb").read().decode("utf8")
        except UnicodeDecodeError:
            return self.bad(1, "encoding", "the file is no UTF-8 text")
        secs, stray = sections(text)
        for i, k, v in stray:
            if not k.startswith("include"):
                self.bad(i, f"stray:{k}", f"{k!r} belongs to no section")
        extra = 1 if self.layout else 0      # the [ids] of the including file
        if len(secs) + extra > self.w.caps["sections"]:
            self.bad(1, "sections", "the file has too many sections")
        for n, h, es in secs:
            if self.layout and h in ("ids", "global"):
                self.bad(n, f"section:{h}", f"a layout has the section [{h}]")
            self.head(n, h)
            if h == "aliases":
                for i, k, v in es:
                    self.alias(i, k, v)
            if len(es) > self.w.caps["entries"]:
                self.bad(n, f"entries:{h}", f"[{h}] has too many entries")
        if len(self.layers) > self.w.caps["layers"]:
            self.bad(1, "layers", "the file defines too many layers")
        for n, h, es in secs:
            sec = h.partition(":")[0]
            for i, k, v in es:
                self.ctx.count("entries")
                if h == "aliases":
                    continue
                if h == "global":
                    if k not in self.w.opts:
                        self.bad(i, f"option:{k}", f"{k} is no option")
                elif h == "ids":
                    if not re.fullmatch(r"-?\*|[-mk]?:?[0-9a-f]{4}:[0-9a-f]{4}(:[0-9a-f]+)?|[mk]:\*", k):
                        self.bad(i, f"id:{k}", f"{k!r} is no id")
                elif v is None:
                    if not k.startswith("include"):
                        self.bad(i, f"binding:{k}", f"{k!r} is no binding")
                else:
                    if len(f"{sec}.{k} = {v}".encode()) >= self.w.caps["expression"]:
                        self.bad(i, f"length:{k}", f"the binding of {k} is too long")
                    self.key(i, sec, k)
                    self.action(i, v)
        for what, k in self.n.items():
            if k > self.w.caps[what]:
                self.bad(1, what, f"the file needs {k} {what}, there is room for {self.w.caps[what]}")
        self.ctx.count("sections", len(secs))


def files(ctx, sub, layout):
    w = World(ctx)
    d = os.path.join(ctx.repo, sub)
    fs = sorted(os.listdir(d)) if os.path.isdir(d) else []
    ctx.need(fs, f"no files in {sub}")
    for f in fs:
        if not os.path.isfile(os.path.join(d, f)) or not layout and not f.endswith(".conf"):
            continue
        ctx.count("files")
        File(ctx, w, f"{sub}/{f}", layout).run()


def run(ctx):
    ctx.rule("every name in the shipped layouts is known", files, "layouts", True)
    ctx.rule("every name in the shipped examples is known", files, "examples", False)
