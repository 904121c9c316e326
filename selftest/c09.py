M = "src/macro.c"; D = "src/daemon.c"; K = "src/keyboard.c"
MUT = [
    ("exec-nomodrelease", [(M, "				if (mods & mask)\n					output(code, 0);", "				if (mods & mask && mask != MOD_ALT_GR)\n					output(code, 0);")]),
    ("exec-nokeyup", [(M, "			output(code, 1);\n			output(code, 0);\n\n			for", "			output(code, 1);\n			if (!mods)\n				output(code, 0);\n\n			for")]),
    ("exec-unicode3", [(M, "for (j = 0; j < 4; j++) {\n				output(codes[j], 1)", "for (j = 0; j < 3; j++) {\n				output(codes[j], 1)")]),
    ("exec-unicode-up", [(M, "output(codes[j], 1);\n				output(codes[j], 0);", "output(codes[j], 1);\n				output(codes[0], 0);")]),
    ("exec-hold-notype", [(M, "					if (ent->type == MACRO_HOLD)\n", "")]),
    ("exec-hold-type2", [(M, "					if (ent->type == MACRO_HOLD)\n", "					if (ent->type != MACRO_TIMEOUT)\n")]),
    ("exec-hold-last", [(M, "for (j = hold_start; j < i; j++)", "for (j = hold_start; j < i - 1; j++)")]),
    ("exec-hold-start", [(M, "			if (hold_start == -1)\n				hold_start = i;", "			hold_start = i;")]),
    ("exec-hold-noreset", [(M, "				hold_start = -1;\n			}\n			break;", "			}\n			break;")]),
    ("exec-timeout", [(M, "		case MACRO_TIMEOUT:\n			usleep(ent->data * 1E3);", "		case MACRO_TIMEOUT:\n			output(0, 0);\n			usleep(ent->data * 1E3);")]),
    ("exec-early", [(M, "			if (mods && timeout)\n				usleep(timeout);\n\n			output(code, 1)", "			if (mods && timeout)\n				usleep(timeout);\n			if (!code)\n				break;\n			output(code, 1)")]),
    ("exec-range", [(M, "for (i = 0; i < macro->sz; i++) {\n		const", "for (i = 0; i + 1 < macro->sz; i++) {\n		const")]),
    ("parse-norelease", [(M, "			ADD_ENTRY(MACRO_RELEASE, 0);\n", "			if (key)\n				ADD_ENTRY(MACRO_RELEASE, 0);\n")]),
    ("parse-hold-data", [(M, "ADD_ENTRY(MACRO_HOLD, code);", "ADD_ENTRY(MACRO_HOLD, mods);")]),
    ("input-shift", [(D, "					vkbd_send_key(vkbd, code, 0);\n					vkbd_send_key(vkbd, KEYD_LEFTSHIFT, 0);", "					vkbd_send_key(vkbd, code, 0);\n					if (timeout)\n						vkbd_send_key(vkbd, KEYD_LEFTSHIFT, 0);")]),
    ("input-tab", [(D, "				vkbd_send_key(vkbd, KEYD_TAB, 0);\n", "")]),
    ("input-skip", [(D, "			} else {\n				found = 0;\n			}", "			}")]),
    ("input-unknown", [(D, "				err(\"ERROR: could not find code for \\\"%.*s\\\"\", csz, buf);\n				return -1;", "				err(\"ERROR: could not find code for \\\"%.*s\\\"\", csz, buf);\n				break;")]),
    ("input-unknown2", [(D, "				err(\"ERROR: could not find code for \\\"%.*s\\\"\", csz, buf);\n				return -1;", "				buf += csz;\n				continue;")]),
    ("simple-noup", [(K, "		send_key(kbd, code, 1);\n		send_key(kbd, code, 0);\n	} else {", "		send_key(kbd, code, 1);\n		if (!mods)\n			send_key(kbd, code, 0);\n	} else {")]),
    ("simple-wrongup", [(K, "		send_key(kbd, code, 1);\n		send_key(kbd, code, 0);\n	} else {", "		send_key(kbd, code, 1);\n		send_key(kbd, kbd->last_pressed_code, 0);\n	} else {")]),
]
REF = [
    ("tap-helper", [(M, "void macro_execute(", "static void tap(void (*output)(uint8_t, uint8_t), uint8_t code)\n{\n	output(code, 1);\n	output(code, 0);\n}\n\nvoid macro_execute("), (M, "				output(codes[j], 1);\n				output(codes[j], 0);", "				tap(output, codes[j]);"), (M, "			output(code, 1);\n			output(code, 0);\n\n			for", "			tap(output, code);\n\n			for")]),
    ("input-helper", [(D, "static int input(char", "static void tap(uint8_t code)\n{\n	vkbd_send_key(vkbd, code, 1);\n	vkbd_send_key(vkbd, code, 0);\n}\n\nstatic int input(char"), (D, "				vkbd_send_key(vkbd, KEYD_SPACE, 1);\n				vkbd_send_key(vkbd, KEYD_SPACE, 0);", "				tap(KEYD_SPACE);"), (D, "				vkbd_send_key(vkbd, codes[i], 1);\n				vkbd_send_key(vkbd, codes[i], 0);", "				tap(codes[i]);")]),
    ("mods-helper", [(M, "void macro_execute(", "static void put_mods(void (*output)(uint8_t, uint8_t), uint8_t mods, uint8_t state)\n{\n	size_t j;\n	for (j = 0; j < ARRAY_SIZE(modifiers); j++)\n		if (mods & modifiers[j].mask)\n			output(modifiers[j].key, state);\n}\n\nvoid macro_execute("),
        (M, "			for (j = 0; j < ARRAY_SIZE(modifiers); j++) {\n				uint8_t code = modifiers[j].key;\n				uint8_t mask = modifiers[j].mask;\n\n				if (mods & mask)\n					output(code, 1);\n			}\n", "			put_mods(output, mods, 1);\n"),
        (M, "			for (j = 0; j < ARRAY_SIZE(modifiers); j++) {\n				uint8_t code = modifiers[j].key;\n				uint8_t mask = modifiers[j].mask;\n\n				if (mods & mask)\n					output(code, 0);\n			}\n", "			put_mods(output, mods, 0);\n")]),
    ("hold-data", [(M, "			output(ent->data, 1);\n\n			break;", "			code = ent->data;\n			output(code, 1);\n			break;")]),
    ("input-while", [(D, "			for (i = 0; i < 4; i++) {\n				vkbd_send_key(vkbd, codes[i], 1);", "			for (i = 0; i < sizeof(codes); i++) {\n				vkbd_send_key(vkbd, codes[i], 1);")]),
]
