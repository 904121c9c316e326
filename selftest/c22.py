U = "src/unicode.c"
M = "src/macro.c"
D = "src/daemon.c"
S = "src/string.c"
K = "data/keyd.compose"
MUT = [
    ("swap-table", [(U, "{ 128,129,130,", "{ 128,130,129,")]),
    ("dup-table", [(U, "{ 128,129,130,131,", "{ 128,129,129,131,")]),
    ("drop-first", [(U, "{ 128,129,130,", "{ 129,130,")]),
    ("base35", [(U, "codes[3] = chars[idx % 36];", "codes[3] = chars[idx % 35];")]),
    ("order", [(U, "codes[1] = chars[idx / (36 * 36) % 36];\n	codes[2] = chars[idx / 36 % 36];", "codes[2] = chars[idx / (36 * 36) % 36];\n	codes[1] = chars[idx / 36 % 36];")]),
    ("mid-mod", [(U, "codes[2] = chars[idx / 36 % 36];", "codes[2] = chars[idx / 36 % 36 % 32];")]),
    ("chars-swap", [(U, "KEYD_W, KEYD_X, KEYD_Y, KEYD_Z", "KEYD_W, KEYD_X, KEYD_Z, KEYD_Y")]),
    ("chars-dup", [(U, "KEYD_O, KEYD_P, KEYD_Q", "KEYD_0, KEYD_P, KEYD_Q")]),
    ("compose-key", [(U, "codes[0] = KEYD_CANCEL;", "codes[0] = KEYD_COMPOSE;")]),
    ("lookup-from-1", [(U, "for(i = 0; i < sizeof(unicode_table)", "for(i = 1; i < sizeof(unicode_table)")]),
    ("lookup-short", [(U, "i < sizeof(unicode_table)/sizeof(unicode_table[0]); i++", "i < sizeof(unicode_table)/sizeof(unicode_table[0])-1; i++")]),
    ("lookup-ge", [(U, "if (unicode_table[i] == codepoint)", "if (unicode_table[i] >= codepoint)")]),
    ("lookup-trunc", [(U, "if (unicode_table[i] == codepoint)", "if ((uint16_t)unicode_table[i] == (uint16_t)codepoint)")]),
    ("lookup-short-ret", [(U, "			return i;", "			return (short)i;")]),
    ("lookup-next", [(U, "			return i;", "			return i+1;")]),
    ("compose-swap", [(K, '<Cancel> <0> <0> <3> :', '<Cancel> <0> <0> <zz> :')]),
    ("compose-shift", [(K, '<Cancel> <2> <k> <1> :', '<Cancel> <2> <k> <q> :')]),
    ("data-u8", [("src/macro.h", "	uint16_t data;", "	uint8_t data;")]),
    ("idx-s16", [(M, "			uint16_t idx;", "			int16_t idx;")]),
    ("idx-u8", [(M, "			uint16_t idx;", "			uint8_t idx;")]),
    ("emit-3", [(M, "for (j = 0; j < 4; j++) {", "for (j = 0; j < 3; j++) {")]),
    ("emit-from-1", [(D, "			for (i = 0; i < 4; i++) {", "			for (i = 1; i < 4; i++) {")]),
    ("emit-held", [(M, "				output(codes[j], 1);\n				output(codes[j], 0);\n			}\n\n			break;\n		case MACRO_KEYSEQ", "				output(codes[j], 1);\n			}\n			for (j = 0; j < 4; j++)\n				output(codes[j], 0);\n\n			break;\n		case MACRO_KEYSEQ")]),
    ("emit-twice", [(D, "				vkbd_send_key(vkbd, codes[i], 0);\n", "				vkbd_send_key(vkbd, codes[i], 0);\n				vkbd_send_key(vkbd, codes[0], 0);\n")]),
    ("emit-reverse", [(M, "				output(codes[j], 1);\n				output(codes[j], 0);\n			}\n\n			break;\n		case MACRO_KEYSEQ", "				output(codes[3-j], 1);\n				output(codes[3-j], 0);\n			}\n\n			break;\n		case MACRO_KEYSEQ")]),
    ("gt-0", [(M, "unicode_lookup_index(codepoint)) >= 0)", "unicode_lookup_index(codepoint)) > 0)")]),
    ("no-neg", [(D, "			if (idx < 0) {\n				err(\"ERROR: could not find code for \\\"%.*s\\\"\", csz, buf);\n				return -1;\n			}\n", "")]),
    ("skip-4byte", [(M, "} else if ((xcode = unicode", "} else if (chrsz < 4 && (xcode = unicode")]),
    ("utf-mask", [(S, "*code = (s[0] & 0x0F) << 12", "*code = (s[0] & 0x07) << 12")]),
    ("utf-shift", [(S, "(s[1] & 0x3F) << 12 | (s[2] & 0x3F) << 6 | (s[3] & 0x3F)", "(s[1] & 0x3F) << 12 | (s[2] & 0x1F) << 6 | (s[3] & 0x3F)")]),
    ("utf-len", [(S, "*code = (s[0] & 0x1F) << 6 | (s[1] & 0x3F);\n		return 2;", "*code = (s[0] & 0x1F) << 6 | (s[1] & 0x3F);\n		return 1;")]),
    ("utf-bound", [(S, "} else if (s[0] >= 0xC0) {", "} else if (s[0] >= 0xC3) {")]),
]
REF = [
    ("loop-seq", [(U, "	codes[1] = chars[idx / (36 * 36) % 36];\n	codes[2] = chars[idx / 36 % 36];\n	codes[3] = chars[idx % 36];\n", "	for (int k = 3; k > 0; k--) {\n		codes[k] = chars[idx % 36];\n		idx /= 36;\n	}\n")]),
    ("static-chars", [(U, "	uint8_t chars[] = {", "	static const uint8_t chars[] = {")]),
    ("const-table", [(U, "uint32_t unicode_table[] =", "const uint32_t unicode_table[] =")]),
    ("binary", [(U, "	size_t i = 0;\n\n	for(i = 0; i < sizeof(unicode_table)/sizeof(unicode_table[0]); i++) {\n		if (unicode_table[i] == codepoint)\n			return i;\n	}\n", "	size_t lo = 0, hi = sizeof(unicode_table)/sizeof(unicode_table[0]);\n\n	while (lo < hi) {\n		size_t mid = (lo + hi) / 2;\n		if (unicode_table[mid] == codepoint)\n			return mid;\n		if (unicode_table[mid] < codepoint)\n			lo = mid + 1;\n		else\n			hi = mid;\n	}\n")]),
    ("while-lookup", [(U, "	for(i = 0; i < sizeof(unicode_table)/sizeof(unicode_table[0]); i++) {\n		if (unicode_table[i] == codepoint)\n			return i;\n	}\n", "	while (i < sizeof(unicode_table)/sizeof(unicode_table[0])) {\n		if (unicode_table[i] == codepoint)\n			return (int)i;\n		i++;\n	}\n")]),
    ("emit-helper", [(D, "static void handle_client(int con)", "static void tapkey(uint8_t code)\n{\n	vkbd_send_key(vkbd, code, 1);\n	vkbd_send_key(vkbd, code, 0);\n}\n\nstatic void handle_client(int con)"), (D, "static int input(char *buf", "static void tapkey(uint8_t code);\nstatic int input(char *buf"),
                     (D, "				vkbd_send_key(vkbd, codes[i], 1);\n				vkbd_send_key(vkbd, codes[i], 0);\n			}\n		}\n		buf+=csz;", "				tapkey(codes[i]);\n			}\n		}\n		buf+=csz;")]),
    ("emit-unrolled", [(M, "			for (j = 0; j < 4; j++) {\n				output(codes[j], 1);\n				output(codes[j], 0);\n			}\n", "			output(codes[0], 1);\n			output(codes[0], 0);\n			output(codes[1], 1);\n			output(codes[1], 0);\n			output(codes[2], 1);\n			output(codes[2], 0);\n			output(codes[3], 1);\n			output(codes[3], 0);\n")]),
    ("char-helper", [(D, "static int input(char *buf", "static int input_unicode(uint32_t codepoint)\n{\n	uint8_t codes[4];\n	int i;\n	int idx = unicode_lookup_index(codepoint);\n	if (idx < 0)\n		return -1;\n	unicode_get_sequence(idx, codes);\n	for (i = 0; i < 4; i++) {\n		vkbd_send_key(vkbd, codes[i], 1);\n		vkbd_send_key(vkbd, codes[i], 0);\n	}\n	return 0;\n}\n\nstatic int input(char *buf"),
                     (D, "			int idx = unicode_lookup_index(codepoint);\n			if (idx < 0) {", "			if (input_unicode(codepoint) < 0) {"),
                     (D, "			unicode_get_sequence(idx, codes);\n\n			for (i = 0; i < 4; i++) {\n				vkbd_send_key(vkbd, codes[i], 1);\n				vkbd_send_key(vkbd, codes[i], 0);\n			}\n", "			(void)codes; (void)i;\n")]),
    ("idx-int", [(M, "			uint16_t idx;", "			int idx;")]),
]
