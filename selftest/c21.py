K = "src/keys.c"
C = "src/config.c"
M = "src/keyd.c"
MUT = [
    ("dup-name", [(K, '[KEYD_ZOOM] = { "zoom", NULL, NULL }', '[KEYD_ZOOM] = { "zoom", "noop", NULL }')]),
    ("dup-shift", [(K, '[KEYD_MINUS] = { "-", "minus", "_" }', '[KEYD_MINUS] = { "-", "minus", "+" }')]),
    ("space-name", [(K, '{ "zoom", NULL, NULL }', '{ "zoom in", NULL, NULL }')]),
    ("prefix-name", [(K, '{ "zoom", NULL, NULL }', '{ "z-oom", NULL, NULL }')]),
    ("empty-name", [(K, '{ "zoom", NULL, NULL }', '{ "", NULL, NULL }')]),
    ("swap-mod", [(K, "	{MOD_ALT, KEYD_LEFTALT},\n	{MOD_ALT_GR, KEYD_RIGHTALT},", "	{MOD_ALT_GR, KEYD_LEFTALT},\n	{MOD_ALT, KEYD_RIGHTALT},")]),
    ("right-shift", [(K, "{MOD_SHIFT, KEYD_LEFTSHIFT}", "{MOD_SHIFT, KEYD_RIGHTSHIFT}")]),
    ("same-bit", [("src/keys.h", "#define MOD_SUPER	0x2", "#define MOD_SUPER	0x8")]),
    ("two-bits", [("src/keys.h", "#define MOD_SUPER	0x2", "#define MOD_SUPER	0x6")]),
    ("seq-swap", [(K, "		case 'M':\n			mods |= MOD_SUPER;", "		case 'M':\n			mods |= MOD_ALT;")]),
    ("seq-assign", [(K, "		case 'S':\n			mods |= MOD_SHIFT;", "		case 'S':\n			mods = MOD_SHIFT;")]),
    ("seq-xor", [(K, "		case 'C':\n			mods |= MOD_CTRL;", "		case 'C':\n			mods ^= MOD_CTRL;")]),
    ("seq-lower", [(K, "		case 'C':\n			mods |= MOD_CTRL;", "		case 'c':\n		case 'C':\n			mods |= MOD_CTRL;")]),
    ("seq-skip3", [(K, "		c += 2;\n", "		c += mods == (MOD_CTRL|MOD_ALT) ? 3 : 2;\n")]),
    ("seq-one", [(K, "	while (c[0] && c[1] == '-') {", "	if (c[0] && c[1] == '-') {")]),
    ("shift-lost", [(K, "				mods |= MOD_SHIFT;\n\n", "\n")]),
    ("shift-only", [(K, "				mods |= MOD_SHIFT;\n\n", "				mods = MOD_SHIFT;\n\n")]),
    ("short-table", [(K, "	for (i = 0; i < 256; i++) {", "	for (i = 0; i < KEYD_NOOP; i++) {")]),
    ("from-last", [(K, "	for (i = 0; i < 256; i++) {", "	for (i = 1; i < 254; i++) {")]),
    ("no-alt", [(K, "				   (ent->alt_name && !strcmp(ent->alt_name, c))) {", "				   (ent->alt_name && ent->shifted_name && !strcmp(ent->alt_name, c))) {")]),
    ("code-off", [(K, "				if (codep)\n					*codep = i;\n\n				return 0;\n			}\n		}", "				if (codep)\n					*codep = i == KEYD_RIGHTALT ? KEYD_LEFTALT : i;\n\n				return 0;\n			}\n		}")]),
    ("casecmp", [(K, "!strcmp(ent->name, c) ||", "!strcasecmp(ent->name, c) ||"), (K, "#include <string.h>", "#include <string.h>\n#include <strings.h>")]),
    ("use-s", [(K, "!strcmp(ent->shifted_name, c)", "!strcmp(ent->shifted_name, s)")]),
    ("modset-swap", [(K, "		case 'A':\n			*mods |= MOD_ALT;", "		case 'A':\n			*mods |= MOD_ALT_GR;")]),
    ("modset-assign", [(K, "			*mods |= MOD_ALT_GR;", "			*mods = MOD_ALT_GR;")]),
    ("modset-nosep", [(K, "		else if (s[1] != '-')\n			return -1;\n", "")]),
    ("modset-plus", [(K, "		else if (s[1] != '-')\n", "		else if (s[1] != '-' && s[1] != '+')\n")]),
    ("modset-noinit", [(K, "	*mods = 0;\n\n	while (*s) {\n		switch (*s) {\n		case 'C':\n			*mods |=", "	while (*s) {\n		switch (*s) {\n		case 'C':\n			*mods =")]),
    ("modset-default", [(K, "			*mods |= MOD_ALT_GR;\n			break;\n		default:\n			return -1;\n			break;", "			*mods |= MOD_ALT_GR;\n			break;\n		default:\n			break;")]),
    ("print-swap", [(K, "		s[i++] = 'G';", "		s[i++] = 'A';")]),
    ("print-sep", [(K, "		s[i++] = 'M';\n		s[i++] = '-';", "		s[i++] = 'M';\n		s[i++] = '+';")]),
    ("print-cut", [(K, "	if(i)\n		s[i-1] = 0;", "	if(i)\n		s[i-2] = 0;")]),
    ("print-mask", [(K, "	if (MOD_ALT & mods) {", "	if (mods == MOD_ALT) {")]),
    ("lookup-off", [(C, "			return i;\n		}\n	}\n\n	return 0;\n}\n\nstatic struct descriptor *layer_lookup_chord", "			return i + 1;\n		}\n	}\n\n	return 0;\n}\n\nstatic struct descriptor *layer_lookup_chord")]),
    ("lookup-128", [(C, "static uint8_t lookup_keycode(const char *name)\n{\n	size_t i;\n\n	for (i = 0; i < 256;", "static uint8_t lookup_keycode(const char *name)\n{\n	size_t i;\n\n	for (i = 0; i < 250;")]),
    ("lookup-noalt", [(C, "		     (ent->alt_name && !strcmp(ent->alt_name, name)))) {", "		     (i < 128 && ent->alt_name && !strcmp(ent->alt_name, name)))) {")]),
    ("lookup-shift", [(C, "(ent->alt_name && !strcmp(ent->alt_name, name)))", "(ent->alt_name && !strcmp(ent->name, ent->alt_name)))")]),
    ("list-short", [(M, "	for (i = 0; i < 256; i++) {\n		const char *altname", "	for (i = 0; i < 255; i++) {\n		const char *altname")]),
    ("list-noalt", [(M, "		if (altname)\n			printf(\"%s\\n\", altname);\n", "		if (altname && !shiftedname)\n			printf(\"%s\\n\", altname);\n")]),
    ("list-else", [(M, "		if (altname)\n			printf(\"%s\\n\", altname);\n", "		else if (altname)\n			printf(\"%s\\n\", altname);\n")]),
    ("plain-swap", [(C, 'case KEYD_RIGHTALT:    layer = "altgr"; break;', 'case KEYD_RIGHTALT:    layer = "alt"; break;')]),
    ("plain-missing", [(C, '			case KEYD_LEFTMETA:    layer = "meta"; break;\n', '')]),
    ("plain-extra", [(C, '			case KEYD_LEFTMETA:    layer = "meta"; break;\n', '			case KEYD_RIGHTMETA:\n			case KEYD_LEFTMETA:    layer = "meta"; break;\n')]),
    ("default-head", [(C, '[meta:M]', '[meta:A]')]),
    ("default-alias", [(C, '"rightalt = altgr\\n"', '"rightalt = alt\\n"')]),
    ("default-main", [(C, '"altgr = layer(altgr)\\n"', '"altgr = layer(alt)\\n"')]),
    ("default-name", [(C, '"leftcontrol = control\\n"', '"leftctrl = control\\n"')]),
]
REF = [
    ("table-order", [(K, "	{MOD_ALT, KEYD_LEFTALT},\n	{MOD_ALT_GR, KEYD_RIGHTALT},", "	{MOD_ALT_GR, KEYD_RIGHTALT},\n	{MOD_ALT, KEYD_LEFTALT},")]),
    ("helper-bit", [(K, "int parse_key_sequence(const char *s,", """static int modbit(char c)
{
	switch (c) {
	case 'C': return MOD_CTRL;
	case 'M': return MOD_SUPER;
	case 'A': return MOD_ALT;
	case 'S': return MOD_SHIFT;
	case 'G': return MOD_ALT_GR;
	}
	return 0;
}

int parse_key_sequence(const char *s,"""), (K, """		switch (*c) {
		case 'C':
			mods |= MOD_CTRL;
			break;
		case 'M':
			mods |= MOD_SUPER;
			break;
		case 'A':
			mods |= MOD_ALT;
			break;
		case 'S':
			mods |= MOD_SHIFT;
			break;
		case 'G':
			mods |= MOD_ALT_GR;
			break;
		default:
			return -1;
			break;
		}

		c += 2;
	}

	for""", """		int b = modbit(*c);

		if (!b)
			return -1;
		mods |= b;
		c += 2;
	}

	for""")]),
    ("table-lookup", [(K, "int parse_modset(const char *s, uint8_t *mods)\n{", """int parse_modset(const char *s, uint8_t *mods)
{
	static const struct { char c; uint8_t m; } t[] = {
		{'C', MOD_CTRL}, {'M', MOD_SUPER}, {'A', MOD_ALT}, {'S', MOD_SHIFT}, {'G', MOD_ALT_GR} };
	uint8_t r = 0;
	size_t k;

	if (1) {
		*mods = 0;
		for (; *s; s += 2) {
			for (k = 0; k < 5 && t[k].c != *s; k++)
				;
			if (k == 5)
				return -1;
			r |= t[k].m;
			*mods = r;
			if (!s[1])
				return 0;
			if (s[1] != '-')
				return -1;
		}
		return 0;
	}
""")]),
    ("reverse", [(K, "	for (i = 0; i < 256; i++) {\n		const struct keycode_table_ent *ent = &keycode_table[i];", "	for (i = 256; i-- > 0;) {\n		const struct keycode_table_ent *ent = &keycode_table[i];")]),
    ("pointer", [(K, "	for (i = 0; i < 256; i++) {\n		const struct keycode_table_ent *ent = &keycode_table[i];", "	const struct keycode_table_ent *ent;\n	for (ent = keycode_table; ent < keycode_table + 256; ent++) {\n		i = ent - keycode_table;")]),
    ("order", [(K, "			if (ent->shifted_name &&\n			    !strcmp(ent->shifted_name, c)) {\n", "			if (ent->shifted_name &&\n			    strcmp(ent->shifted_name, c) == 0) {\n")]),
    ("match-helper", [(K, "int parse_key_sequence(const char *s,", "static int is(const char *a, const char *b)\n{\n	return a && !strcmp(a, b);\n}\n\nint parse_key_sequence(const char *s,"),
                      (K, "			} else if (!strcmp(ent->name, c) ||\n				   (ent->alt_name && !strcmp(ent->alt_name, c))) {", "			} else if (is(ent->name, c) || is(ent->alt_name, c)) {")]),
    ("skip0", [(K, "	for (i = 0; i < 256; i++) {\n		const struct keycode_table_ent *ent = &keycode_table[i];", "	for (i = 1; i < 256; i++) {\n		const struct keycode_table_ent *ent = &keycode_table[i];")]),
    ("modstring-helper", [(K, "const char *modstring(uint8_t mods)", "static char *put(char *p, char c)\n{\n	*p++ = c;\n	*p++ = '-';\n	return p;\n}\n\nconst char *modstring(uint8_t mods)"),
                          (K, "		s[i++] = 'G';\n		s[i++] = '-';", "		i = put(s + i, 'G') - s;")]),
    ("modstring-order", [(K, "	if (MOD_ALT & mods) {\n		s[i++] = 'A';\n		s[i++] = '-';\n	}\n", ""), (K, "	if (MOD_ALT_GR & mods) {", "	if (mods & MOD_ALT) {\n		s[i++] = 'A';\n		s[i++] = '-';\n	}\n	if (MOD_ALT_GR & mods) {")]),
    ("puts", [(M, 'printf("%s\\n", altname)', 'puts(altname)')]),
    ("list-continue", [(M, "		if (name)\n			printf(\"%s\\n\", name);\n", "		if (!name)\n			continue;\n		printf(\"%s\\n\", name);\n")]),
    ("lookup-goto", [(C, "			return i;\n		}\n	}\n\n	return 0;\n}\n\nstatic struct descriptor *layer_lookup_chord", "			break;\n		}\n	}\n\n	return i < 256 ? i : 0;\n}\n\nstatic struct descriptor *layer_lookup_chord")]),
    ("layer-helper", [(C, "static int parse_descriptor(char *s,\n", "static const char *modlayer(uint8_t code)\n{\n	if (code == KEYD_LEFTSHIFT) return \"shift\";\n	if (code == KEYD_LEFTCTRL) return \"control\";\n	if (code == KEYD_LEFTMETA) return \"meta\";\n	if (code == KEYD_LEFTALT) return \"alt\";\n	return code == KEYD_RIGHTALT ? \"altgr\" : NULL;\n}\n\nstatic int parse_descriptor(char *s,\n"),
                      (C, """		const char *layer = NULL;

		switch (code) {
			case KEYD_LEFTSHIFT:   layer = "shift"; break;
			case KEYD_LEFTCTRL:    layer = "control"; break;
			case KEYD_LEFTMETA:    layer = "meta"; break;
			case KEYD_LEFTALT:     layer = "alt"; break;
			case KEYD_RIGHTALT:    layer = "altgr"; break;
		}
""", "		const char *layer = modlayer(code);\n")]),
    ("default-order", [(C, '	"[meta:M]\\n"\n', ''), (C, '	"[control:C]\\n"', '	"[meta:M]\\n"\n	"[control:C]\\n"')]),
]
