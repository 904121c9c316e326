"""C02: every access of the running daemon's code (engine, daemon, devices, event loop, commands, monitor, output) whose place varies is an
obligation: an index into a table, a length given to a routine that fills or reads a buffer, a string copy. Each is bounded from the
comparisons that dominate it, induction over the loops' variables, invariants of counters over the whole program, and what callers pass;
queue counters, which are looked at after an entry is added, are followed as typestates (at rest a queue has room, or its state says it is
not in use). An obligation not bounded is a violation when the code's own comparison admits a place past the end, when nothing limits a
counter that every use advances, when an outside value is used unchecked, or when a fixed place or length does not fit; otherwise it is
reported as not decided."""
import mem

ASSUMPTIONS = ["sizes and counters do not wrap around their types", "indices of layers, descriptors, macros and commands in actions are the ones the parser put there (C01, C10)",
               "an action kept for a pending key has an operation"]
FILES = {"src/keyboard.c", "src/daemon.c", "src/device.c", "src/evloop.c", "src/keyd.c", "src/monitor.c", "src/vkbd/uinput.c", "src/vkbd/stdout.c", "src/ipc.c", "src/vkbd.c"}


def run(ctx):
    ctx.rule("every place the running daemon accesses is within the table it belongs to", mem.check, FILES)
