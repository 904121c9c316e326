D = "src/daemon.c"; K = "src/keyboard.c"
RL = "	for (i = 0; i < 256; i++) {\n		if (kbd->keystate[i]) {\n			kbd->output.send_key(i, 0);\n			kbd->keystate[i] = 0;\n		}\n	}\n"
SK = "	if (kbd->keystate[code] != pressed) {\n		kbd->keystate[code] = pressed;\n		kbd->output.send_key(code, pressed);\n	}\n"
CV = "	for (i = 0; i < 256; i++)\n		if (keystate[i]) {\n			vkbd_send_key(vkbd, i, 0);\n			keystate[i] = 0;\n		}\n"
MUT = [
    ("send-norecord", [(K, SK, SK.replace("		kbd->keystate[code] = pressed;\n", "		if (pressed)\n			kbd->keystate[code] = pressed;\n"))]),
    ("send-unrec-order", [(K, SK, "	if (kbd->keystate[code] != pressed) {\n		kbd->output.send_key(code, pressed);\n		if (!kbd->inhibit_modifier_guard)\n			kbd->keystate[code] = pressed;\n	}\n")]),
    ("send-always", [(K, SK, "	if (kbd->keystate[code] != pressed || kbd->inhibit_modifier_guard) {\n		kbd->keystate[code] = pressed;\n		kbd->output.send_key(code, pressed);\n	}\n")]),
    ("send-recordonly", [(K, SK, "	if (kbd->keystate[code] != pressed) {\n		kbd->keystate[code] = pressed;\n		if (pressed || !kbd->oneshot_latch)\n			kbd->output.send_key(code, pressed);\n	}\n")]),
    ("send-swallow", [(K, "	if (pressed)\n		kbd->last_pressed_output_code = code;\n", "	if (pressed)\n		kbd->last_pressed_output_code = code;\n	else if (code == kbd->inhibit_modifier_guard)\n		return;\n")]),
    ("send-swallow-code", [(K, "	if (code == KEYD_NOOP || code == KEYD_EXTERNAL_MOUSE_BUTTON)\n		return;", "	if (code == KEYD_NOOP || code >= KEYD_EXTERNAL_MOUSE_BUTTON)\n		return;")]),
    ("reset-255", [(K, RL, RL.replace("256", "255"))]),
    ("reset-from2", [(K, RL, RL.replace("i = 0", "i = 2"))]),
    ("reset-break", [(K, RL, RL.replace("= 0;\n		}\n	}", "= 0;\n			if (i == kbd->last_pressed_code)\n				break;\n		}\n	}"))]),
    ("reset-nostore", [(K, RL, RL.replace("			kbd->keystate[i] = 0;\n", ""))]),
    ("reset-wrong", [(K, RL, RL.replace("send_key(i, 0);\n			kbd->keystate[i] = 0;", "send_key(i, 0);\n			kbd->keystate[kbd->last_pressed_code] = 0;"))]),
    ("reset-partial", [(K, RL, RL.replace("if (kbd->keystate[i]) {", "if (kbd->keystate[i] && i != kbd->last_pressed_output_code) {"))]),
    ("reset-press", [(K, RL, RL.replace("send_key(i, 0)", "send_key(i, kbd->keystate[i])"))]),
    ("reset-memset", [(K, RL, "	for (i = 0; i < 256; i++)\n		if (kbd->keystate[i] && i != kbd->last_pressed_code)\n			kbd->output.send_key(i, 0);\n\n	memset(kbd->keystate, 0, sizeof kbd->keystate);\n")]),
    ("clear-noreset", [(K, "	kbd->active_macro = NULL;\n\n	reset_keystate(kbd);", "	if (!kbd->active_macro)\n		reset_keystate(kbd);\n\n	kbd->active_macro = NULL;\n")]),
    ("layout-noclear", [(K, "	clear(kbd);\n	/* Only only", "	if (idx)\n		clear(kbd);\n	/* Only only")]),
    ("clearm-early", [(K, "			clear(kbd);\n			macro = &kbd->config.macros[d->args[0].idx];", "			macro = &kbd->config.macros[d->args[0].idx];\n			if (macro->sz)\n				clear(kbd);")]),
    ("dmn-sticky", [(D, "	keystate[code] = state;\n", "	keystate[code] |= state;\n")]),
    ("dmn-unrecorded", [(D, "	keystate[code] = state;\n\n	switch (code) {", "	if (code < KEYD_SCROLL_UP)\n		keystate[code] = state;\n\n	switch (code) {")]),
    ("dmn-index", [(D, "	keystate[code] = state;\n", "	keystate[code & 0x7f] = state;\n")]),
    ("dmn-255", [(D, CV, CV.replace("256", "255"))]),
    ("dmn-norelease", [(D, CV, CV.replace("if (keystate[i]) {", "if (keystate[i] == 1 && i < 248) {"))]),
    ("dmn-nozero", [(D, CV, CV.replace("keystate[i] = 0;", "keystate[i] = 1;"))]),
    ("reload-noclear", [(D, "		manage_device(&device_table[i]);\n\n	clear_vkbd();", "		manage_device(&device_table[i]);\n\n	if (active_kbd)\n		clear_vkbd();")]),
    ("reload-noclear2", [(D, "		manage_device(&device_table[i]);\n\n	clear_vkbd();", "		manage_device(&device_table[i]);\n")]),
    ("raw-mod", [(K, "		if (mask & mods) {\n			if (!kbd->keystate[code])\n				send_key(kbd, code, 1);", "		if (mask & mods) {\n			if (!kbd->keystate[code])\n				kbd->output.send_key(code, 1);")]),
]
REF = [
    ("send-inv", [(K, SK, "	if (kbd->keystate[code] == pressed)\n		return;\n\n	kbd->output.send_key(code, pressed);\n	kbd->keystate[code] = pressed;\n")]),
    ("send-range", [(K, "	if (code == KEYD_NOOP || code == KEYD_EXTERNAL_MOUSE_BUTTON)\n		return;", "	switch (code) {\n	case KEYD_EXTERNAL_MOUSE_BUTTON:\n	case KEYD_NOOP:\n		return;\n	}")]),
    ("reset-via-send", [(K, "static void reset_keystate(struct keyboard *kbd)", "static void send_key(struct keyboard *kbd, uint8_t code, uint8_t pressed);\nstatic void reset_keystate(struct keyboard *kbd)"), (K, RL, "	for (i = 0; i < 256; i++)\n		if (kbd->keystate[i])\n			send_key(kbd, i, 0);\n")]),
    ("reset-down", [(K, RL, "	i = 256;\n	while (i-- > 0) {\n		if (!kbd->keystate[i])\n			continue;\n		kbd->keystate[i] = 0;\n		kbd->output.send_key(i, 0);\n	}\n")]),
    ("reset-array", [(K, RL, RL.replace("256", "sizeof(kbd->keystate)"))]),
    ("dmn-helper", [(D, "static void send_key(uint8_t code, uint8_t state)\n{\n	keystate[code] = state;", "static void record(uint8_t code, uint8_t state)\n{\n	keystate[code] = state;\n}\n\nstatic void send_key(uint8_t code, uint8_t state)\n{\n	record(code, state);")]),
    ("dmn-continue", [(D, CV, "	for (i = 0; i < ARRAY_SIZE(keystate); i++) {\n		if (!keystate[i])\n			continue;\n		keystate[i] = 0;\n		vkbd_send_key(vkbd, i, 0);\n	}\n")]),
    ("dmn-viasend", [(D, "static void clear_vkbd()\n{\n", "static void send_key(uint8_t code, uint8_t state);\nstatic void clear_vkbd()\n{\n"), (D, CV, CV.replace("			keystate[i] = 0;\n", "").replace("vkbd_send_key(vkbd, i, 0)", "send_key(i, 0)"))]),
    ("reset-memset-ok", [(K, RL, "	for (i = 0; i < 256; i++)\n		if (kbd->keystate[i])\n			kbd->output.send_key(i, 0);\n\n	memset(kbd->keystate, 0, sizeof kbd->keystate);\n")]),
]
