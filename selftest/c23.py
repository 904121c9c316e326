C = "src/config.c"
H = "src/config.h"
K = "src/keyboard.c"
D = "src/daemon.c"
M = "src/macro.c"
DOC = "docs/keyd.scdoc"
MUT = [
    ("swap-macro", [(C, "			config->macro_timeout = atoi(ent->val);", "			config->macro_repeat_timeout = atoi(ent->val);"), (C, 'else if (!strcmp(ent->key, "macro_repeat_timeout"))\n			config->macro_repeat_timeout = atoi(ent->val);', 'else if (!strcmp(ent->key, "macro_repeat_timeout"))\n			config->macro_timeout = atoi(ent->val);')]),
    ("swap-chord", [(C, "			config->chord_hold_timeout = atoi(ent->val);", "			config->chord_interkey_timeout = atoi(ent->val) + 0;"), (C, '"chord_timeout"))\n			config->chord_interkey_timeout = ', '"chord_timeout"))\n			config->chord_hold_timeout = ')]),
    ("shared", [(C, "			config->overload_tap_timeout = atoi(ent->val);", "			config->oneshot_timeout = atoi(ent->val);")]),
    ("rename", [(C, '"oneshot_timeout"', '"one_shot_timeout"')]),
    ("rename-doc", [(DOC, "*oneshot_timeout:*", "*oneshot_time:*")]),
    ("doc-default", [(DOC, "	(default: 600)", "	(default: 500)")]),
    ("default", [(C, "config->macro_repeat_timeout = 50;", "config->macro_repeat_timeout = 30;")]),
    ("default-chord", [(C, "config->chord_hold_timeout = 0;", "config->chord_hold_timeout = 50;")]),
    ("default-missing", [(C, "	config->chord_interkey_timeout = 50;\n", "")]),
    ("default-extra", [(C, "	config->macro_timeout = 600;\n", "	config->macro_timeout = 600;\n	config->overload_tap_timeout = 200;\n")]),
    ("default-guard", [(C, "	config->macro_timeout = 600;\n", "	config->macro_timeout = 600;\n	config->disable_modifier_guard = 1;\n")]),
    ("short", [(H, "	long macro_timeout;", "	short macro_timeout;")]),
    ("byte", [(H, "	long overload_tap_timeout;", "	uint8_t overload_tap_timeout;")]),
    ("u16", [(H, "	long macro_sequence_timeout;", "	uint16_t macro_sequence_timeout;")]),
    ("clamp", [(C, "			config->oneshot_timeout = atoi(ent->val);", "			config->oneshot_timeout = atoi(ent->val) > 5000 ? 5000 : atoi(ent->val);")]),
    ("atoi-flag", [(C, "config->layer_indicator = atoi(ent->val) != 0;", "config->layer_indicator = atoi(ent->val) == 1;")]),
    ("flag-byte", [(C, "config->layer_indicator = atoi(ent->val) != 0;", "config->layer_indicator = atoi(ent->val);")]),
    ("also", [(C, "			config->macro_timeout = atoi(ent->val);", "			config->macro_repeat_timeout = config->macro_timeout = atoi(ent->val);")]),
    ("secs", [(C, "			config->oneshot_timeout = atoi(ent->val);", "			config->oneshot_timeout = atoi(ent->val) * 1000;")]),
    ("layout-cut", [(C, "		else if (!strcmp(ent->key, \"default_layout\"))\n			snprintf(config->default_layout, sizeof config->default_layout,\n				 \"%s\", ent->val);", "		else if (!strcmp(ent->key, \"default_layout\"))\n			snprintf(config->default_layout, sizeof config->default_layout,\n				 \"%.8s\", ent->val);")]),
    ("no-effect-seq", [(K, "macro_execute(kbd->output.send_key, macro, kbd->config.macro_sequence_timeout);", "macro_execute(kbd->output.send_key, macro, 0);")]),
    ("seq-wrong", [(K, "macro_execute(kbd->output.send_key, macro, kbd->config.macro_sequence_timeout);", "macro_execute(kbd->output.send_key, macro, kbd->config.macro_sequence_timeout + kbd->config.macro_timeout);")]),
    ("seq-ms", [(M, "			usleep(timeout);\n	}", "			usleep(timeout * 1000);\n	}")]),
    ("seq-once", [(M, "		if (timeout)\n			usleep(timeout);\n	}", "		if (timeout && i == 0 && macro->sz > 2)\n			usleep(timeout);\n	}")]),
    ("macro-first", [(K, "				timeout = kbd->config.macro_timeout;", "				timeout = kbd->config.macro_repeat_timeout;")]),
    ("macro-interval", [(K, "				kbd->macro_repeat_interval = kbd->config.macro_repeat_timeout;", "				kbd->macro_repeat_interval = kbd->config.macro_timeout;")]),
    ("macro-stale", [(K, "				kbd->macro_repeat_interval = kbd->config.macro_repeat_timeout;", "				if (!kbd->macro_repeat_interval)\n					kbd->macro_repeat_interval = kbd->config.macro_repeat_timeout;")]),
    ("macro-repeat-first", [(K, "			kbd->macro_timeout = time+kbd->macro_repeat_interval;", "			kbd->macro_timeout = time+kbd->config.macro_timeout;")]),
    ("macro2-global", [(K, "				kbd->macro_repeat_interval = d->args[1].timeout;", "				kbd->macro_repeat_interval = d->args[1].timeout ? d->args[1].timeout : (uint64_t)kbd->config.macro_repeat_timeout;")]),
    ("oneshot-always", [(K, "				if (kbd->config.oneshot_timeout) {", "				if (kbd->config.oneshot_timeout >= 0) {")]),
    ("oneshot-wrong", [(K, "kbd->oneshot_timeout = time + kbd->config.oneshot_timeout;", "kbd->oneshot_timeout = time + kbd->config.oneshot_timeout + kbd->config.chord_hold_timeout;")]),
    ("oneshot-const", [(K, "kbd->oneshot_timeout = time + kbd->config.oneshot_timeout;", "kbd->oneshot_timeout = time + 1000;")]),
    ("overload-le", [(K, "((time - kbd->overload_start_time) < kbd->config.overload_tap_timeout)", "((time - kbd->overload_start_time) <= kbd->config.overload_tap_timeout)")]),
    ("overload-inv", [(K, "(!kbd->config.overload_tap_timeout ||\n", "(kbd->config.overload_tap_timeout ||\n")]),
    ("overload-and", [(K, "(!kbd->config.overload_tap_timeout ||\n", "(kbd->config.overload_tap_timeout &&\n")]),
    ("overload-start", [(K, "			kbd->overload_start_time = time;\n", "")]),
    ("overload2", [(K, "	case OP_OVERLOAD_TIMEOUT:\n", "	case OP_OVERLOAD_TIMEOUT:\n		if (kbd->config.overload_tap_timeout && pressed)\n			kbd->inhibit_modifier_guard = 1;\n")]),
    ("chord-hold-const", [(K, "	const long hold_timeout = kbd->config.chord_hold_timeout;", "	const long hold_timeout = kbd->config.chord_interkey_timeout;")]),
    ("chord-wait", [(K, "				schedule_timeout(kbd, time + interkey_timeout);\n				return 1;\n			default:\n			case 2:\n				kbd->chord.last_code_time = time;\n\n				if (hold_timeout) {", "				schedule_timeout(kbd, time + interkey_timeout + hold_timeout);\n				return 1;\n			default:\n			case 2:\n				kbd->chord.last_code_time = time;\n\n				if (hold_timeout) {")]),
    ("chord-nohold", [(K, "				if (hold_timeout) {", "				if (hold_timeout > interkey_timeout) {")]),
    ("guard-ignored", [(K, "		       !kbd->inhibit_modifier_guard &&\n		       !kbd->config.disable_modifier_guard);", "		       !kbd->inhibit_modifier_guard);")]),
    ("guard-inv", [(K, "		       !kbd->config.disable_modifier_guard);", "		       kbd->config.disable_modifier_guard);")]),
    ("guard-1", [(K, "		       !kbd->config.disable_modifier_guard);", "		       kbd->config.disable_modifier_guard != 1);")]),
    ("guard-altgr", [(K, "			 code == KEYD_LEFTALT ||\n			 code == KEYD_RIGHTALT)) &&", "			 code == KEYD_LEFTALT)) &&")]),
    ("guard-lost", [(K, "	if (guard && !kbd->keystate[KEYD_LEFTCTRL]) {", "	if (kbd->config.disable_modifier_guard && kbd->inhibit_modifier_guard) {\n	} else if (guard && !kbd->keystate[KEYD_LEFTCTRL]) {")]),
    ("led-num", [(D, "device_set_led(&device_table[i], 1, active_layers)", "device_set_led(&device_table[i], 2, active_layers)")]),
    ("led-state", [(D, "device_set_led(&device_table[i], 1, active_layers)", "device_set_led(&device_table[i], 1, state)")]),
    ("led-all", [(D, "			if (device_table[i].data == kbd)\n", "			if (device_table[i].data)\n")]),
    ("led-layout", [(D, "kbd->config.layers[i].type != LT_LAYOUT && kbd->layer_state[i].active", "kbd->layer_state[i].active")]),
    ("led-from2", [(D, "		for (i = 1; i < kbd->config.nr_layers; i++)\n			if (kbd->config.layers[i].type != LT_LAYOUT", "		for (i = 2; i < kbd->config.nr_layers; i++)\n			if (kbd->config.layers[i].type != LT_LAYOUT")]),
    ("led-off", [(D, "	if (kbd->config.layer_indicator) {", "	if (kbd->config.layer_indicator > 1) {")]),
    ("layout-any", [(K, "			if (layer->type == LT_LAYOUT &&\n			    !strcmp(layer->name,", "			if (!strcmp(layer->name,")]),
    ("layout-nobreak", [(K, "				kbd->layer_state[i].active = 1;\n				kbd->layer_state[i].activation_time = 1;", "				kbd->layer_state[i].active = found;\n				kbd->layer_state[i].activation_time = 1;")]),
    ("layout-next", [(K, "				kbd->layer_state[i].active = 1;\n				kbd->layer_state[i].activation_time = 1;", "				kbd->layer_state[i - 1].active = 1;\n				kbd->layer_state[i].activation_time = 1;")]),
    ("unused", [(C, '		else\n			warn("line %zd: %s is not a valid global option"', '		else if (!strcmp(ent->key, "idle_timeout"))\n			config->idle_timeout = atoi(ent->val);\n		else\n			warn("line %zd: %s is not a valid global option"'), (H, "	long oneshot_timeout;", "	long oneshot_timeout;\n	long idle_timeout;")]),
]
REF = [
    ("atol", [(C, "			config->macro_timeout = atoi(ent->val);", "			config->macro_timeout = atol(ent->val);")]),
    ("int", [(H, "	long oneshot_timeout;", "	int oneshot_timeout;")]),
    ("bool", [(C, "config->layer_indicator = atoi(ent->val) != 0;", "config->layer_indicator = !!atoi(ent->val);")]),
    ("helper", [(C, "static void parse_global_section(", "static long number(const struct ini_entry *ent)\n{\n	return atoi(ent->val);\n}\n\nstatic void parse_global_section("), (C, "			config->macro_timeout = atoi(ent->val);", "			config->macro_timeout = number(ent);")]),
    ("table", [(C, "static void parse_global_section(", """static const struct { const char *name; size_t off; } times[] = {
	{ "macro_timeout", offsetof(struct config, macro_timeout) },
	{ "oneshot_timeout", offsetof(struct config, oneshot_timeout) },
};

static void parse_global_section("""), (C, '		if (!strcmp(ent->key, "macro_timeout"))\n			config->macro_timeout = atoi(ent->val);\n		else if', '		if'), (C, '#include <stdio.h>', '#include <stdio.h>\n#include <stddef.h>'),
               (C, '		else if (!strcmp(ent->key, "oneshot_timeout"))\n			config->oneshot_timeout = atoi(ent->val);\n', ''),
               (C, '		if (!strcmp(ent->key, "macro_sequence_timeout"))', '		size_t k;\n		for (k = 0; k < 2; k++)\n			if (!strcmp(ent->key, times[k].name))\n				break;\n		if (k < 2)\n			*(long *)((char *)config + times[k].off) = atoi(ent->val);\n		else if (!strcmp(ent->key, "macro_sequence_timeout"))')]),
    ("default-zero", [(C, "	config->macro_timeout = 600;\n", "	config->macro_timeout = 600;\n	config->macro_sequence_timeout = 0;\n")]),
    ("default-before", [(C, "	config->chord_interkey_timeout = 50;\n", ""), (C, "	config_parse_string(config, default_config);\n\n	/* In ms */", "	config->chord_interkey_timeout = 50;\n	config_parse_string(config, default_config);\n\n	/* In ms */")]),
    ("macro-local", [(K, "				timeout = kbd->config.macro_timeout;", "				const struct config *cf = &kbd->config;\n				timeout = cf->macro_timeout;")]),
    ("macro-order", [(K, "				timeout = kbd->config.macro_timeout;\n				kbd->macro_repeat_interval = kbd->config.macro_repeat_timeout;", "				kbd->macro_repeat_interval = kbd->config.macro_repeat_timeout;\n				timeout = kbd->config.macro_timeout;")]),
    ("macro-repeat-order", [(K, "			execute_macro(kbd, kbd->active_macro_layer, kbd->active_macro);\n			kbd->macro_timeout = time+kbd->macro_repeat_interval;", "			kbd->macro_timeout = kbd->macro_repeat_interval + time;\n			execute_macro(kbd, kbd->active_macro_layer, kbd->active_macro);")]),
    ("oneshot-helper", [(K, "static void update_mods(", "static void schedule_timeout(struct keyboard *kbd, long timeout);\nstatic void start_oneshot_timer(struct keyboard *kbd, long time)\n{\n	long t = kbd->config.oneshot_timeout;\n\n	if (!t)\n		return;\n	kbd->oneshot_timeout = time + t;\n	schedule_timeout(kbd, kbd->oneshot_timeout);\n}\n\nstatic void update_mods("), (K, """				if (kbd->config.oneshot_timeout) {
					kbd->oneshot_timeout = time + kbd->config.oneshot_timeout;
					schedule_timeout(kbd, kbd->oneshot_timeout);
				}
""", "				start_oneshot_timer(kbd, time);\n")]),
    ("overload-sum", [(K, "((time - kbd->overload_start_time) < kbd->config.overload_tap_timeout)", "time < kbd->overload_start_time + kbd->config.overload_tap_timeout")]),
    ("overload-var", [(K, "			if (kbd->last_pressed_code == code &&\n			    (!kbd->config.overload_tap_timeout ||", "			const long held = time - kbd->overload_start_time;\n			(void)held;\n			if (kbd->last_pressed_code == code &&\n			    (kbd->config.overload_tap_timeout == 0 ||")]),
    ("guard-early", [(K, "static void clear_mod(struct keyboard *kbd, uint8_t code)\n{\n", "static void clear_mod(struct keyboard *kbd, uint8_t code)\n{\n	if (kbd->config.disable_modifier_guard) {\n		send_key(kbd, code, 0);\n		return;\n	}\n"), (K, "		       !kbd->inhibit_modifier_guard &&\n		       !kbd->config.disable_modifier_guard);", "		       !kbd->inhibit_modifier_guard);")]),
    ("guard-helper", [(K, "static void clear_mod(struct keyboard *kbd, uint8_t code)\n{\n", "static int guarded(const struct keyboard *kbd, uint8_t code)\n{\n	if (kbd->inhibit_modifier_guard || kbd->config.disable_modifier_guard)\n		return 0;\n	return code == KEYD_LEFTMETA || code == KEYD_LEFTALT || code == KEYD_RIGHTALT;\n}\n\nstatic void clear_mod(struct keyboard *kbd, uint8_t code)\n{\n"), (K, """	int guard = (((kbd->last_pressed_output_code == code) &&
			(code == KEYD_LEFTMETA ||
			 code == KEYD_LEFTALT ||
			 code == KEYD_RIGHTALT)) &&
		       !kbd->inhibit_modifier_guard &&
		       !kbd->config.disable_modifier_guard);""", "	int guard = kbd->last_pressed_output_code == code && guarded(kbd, code);")]),
    ("led-helper", [(D, "static void on_layer_change(const struct", "static int any_layer(const struct keyboard *kbd)\n{\n	size_t i;\n	for (i = 1; i < kbd->config.nr_layers; i++)\n		if (kbd->layer_state[i].active && kbd->config.layers[i].type != LT_LAYOUT)\n			return 1;\n	return 0;\n}\n\nstatic void on_layer_change(const struct"), (D, """		int active_layers = 0;

		for (i = 1; i < kbd->config.nr_layers; i++)
			if (kbd->config.layers[i].type != LT_LAYOUT && kbd->layer_state[i].active) {
				active_layers = 1;
				break;
			}
""", "		int active_layers = any_layer(kbd);\n")]),
    ("led-nobreak", [(D, "				active_layers = 1;\n				break;\n", "				active_layers = 1;\n")]),
    ("layout-found", [(K, "				found = 1;\n				break;\n", "				found = 1;\n				goto done;\n"), (K, "	kbd->chord.queue_sz = 0;\n	kbd->chord.state = CHORD_INACTIVE;\n\n	return kbd;", "done:\n	kbd->chord.queue_sz = 0;\n	kbd->chord.state = CHORD_INACTIVE;\n\n	return kbd;")]),
    ("seq-for", [(M, "	for (i = 0; i < macro->sz; i++) {\n		const struct macro_entry *ent = &macro->entries[i];\n\n		switch", "	const struct macro_entry *ent = macro->entries;\n	for (i = 0; i < macro->sz; i++, ent++) {\n		switch")]),
    ("chord-read", [(K, "	const long interkey_timeout = kbd->config.chord_interkey_timeout;\n	const long hold_timeout = kbd->config.chord_hold_timeout;", "	const struct config *conf = &kbd->config;\n	const long hold_timeout = conf->chord_hold_timeout;\n	const long interkey_timeout = conf->chord_interkey_timeout;")]),
]
