C = "src/config.c"
K = "src/keys.c"
H = "src/config.h"
I = "src/ini.h"
L = "layouts/"
MUT = [
    ("key", [(L + "fr", "\na = q\n", "\naa = q\n")]),
    ("value", [(L + "fr", "\na = q\n", "\na = qq\n")]),
    ("char", [(L + "fr", "\n2 = é\n", "\n2 = \u17ff\n")]),
    ("two-chars", [(L + "fr", "\n2 = é\n", "\n2 = éé\n")]),
    ("layer", [(L + "fr", "shift = layer(fr_shift)", "shift = layer(fr_shft)")]),
    ("action", [(L + "fr", "shift = layer(fr_shift)", "shift = layr(fr_shift)")]),
    ("args", [(L + "fr", "shift = layer(fr_shift)", "shift = layer(fr_shift, a)")]),
    ("type", [(L + "fr", "[fr_shift:S]", "[fr_shift:shift]")]),
    ("order", [(L + "fr", "[fr_shift:S]", "[fr_altgr+fr_shft2]\na = b\n[fr_shift:S]")]),
    ("unclosed", [(L + "fr", "shift = layer(fr_shift)", "shift = layer(fr_shift")]),
    ("bracket", [(L + "fr", "] = $", "[ = $]")]),
    ("latin1", [(L + "fr", "' = ù", "[x y]")]),
    ("key-name", [(K, '{ "[", "leftbrace", "{" }', '{ "leftbrace", NULL, "{" }')]),
    ("backslash", [(K, '"\\\\"', '"bslash"')]),
    ("alias-name", [(C, '"rightalt = altgr\\n"', '"rightalt = alt_gr\\n"')]),
    ("action-name", [(C, '{ "overloadt",', '{ "overload_t",')]),
    ("action-args", [(C, '{ "swapm", 	NULL,	OP_SWAPM,	{ ARG_LAYER, ARG_MACRO } }', '{ "swapm", 	NULL,	OP_SWAPM,	{ ARG_LAYER } }')]),
    ("layers", [(H, "#define MAX_LAYERS		32", "#define MAX_LAYERS		9")]),
    ("macros", [(H, "struct macro macros[256];", "struct macro macros[64];")]),
    ("entries", [("src/ini.h", "MAX_SECTION_ENTRIES 1024", "MAX_SECTION_ENTRIES 16")]),
    ("name", [(H, "#define MAX_LAYER_NAME_LEN	64", "#define MAX_LAYER_NAME_LEN	12")]),
    ("ex-key", [("examples/macos.conf", "space = M-/", "spc = M-/")]),
    ("ex-value", [("examples/macos.conf", "space = M-/", "space = M/")]),
]
REF = [
    ("alias-swap", [(C, '"leftalt = alt\\n"\n	"rightalt = altgr\\n"', '"rightalt = altgr\\n"\n	"leftalt = alt\\n"')]),
    ("layout-spaces", [(L + "fr", "\na = q\n", "\n  a =   q\n# another comment\n")]),
    ("bigger", [(H, "struct macro macros[256];", "struct macro macros[300];")]),
]
