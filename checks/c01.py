"""C01: every access of the configuration code (reading, ini, bindings, macros, strings, keys, log) whose place varies is an obligation:
an index into an array, a length given to a routine that fills or reads a buffer, a string copy, a position counted from a string's end.
Each is bounded from the comparisons that dominate it, induction over the loops' variables (and how they move together), invariants of
counters, what callers pass, and what measured strings hold. An obligation not bounded is a violation when the code's own comparison
admits a place past the end, when nothing limits a counter that every use advances, when an outside value is used unchecked, or when a
fixed place or length does not fit; otherwise it is reported as not decided."""
import mem

ASSUMPTIONS = ["sizes and counters do not wrap around their types", "strings measured by the code are not lengthened before they are copied",
               "pointers walked through a terminated text stop at its end"]
FILES = {"src/config.c", "src/ini.c", "src/macro.c", "src/string.c", "src/keys.c", "src/log.c", "src/unicode.c", "src/util.c"}


def run(ctx):
    ctx.rule("every place the configuration code accesses is within the storage it belongs to", mem.check, FILES)
