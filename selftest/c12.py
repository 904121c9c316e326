K = "src/keyboard.c"
MUT = [
 ("overload-tap-held", [(K, "					execute_macro(kbd, dl, macro);\n					update_mods(kbd, dl, 0);\n", "					execute_macro(kbd, dl, macro);\n")]),
 ("clearm-held", [(K, "			execute_macro(kbd, dl, macro);\n			update_mods(kbd, dl, 0);\n		}\n		break;\n	case OP_CLEAR:", "			execute_macro(kbd, dl, macro);\n		}\n		break;\n	case OP_CLEAR:")]),
 ("seq-release", [(K, "			send_key(kbd, new_code, 0);\n			update_mods(kbd, -1, 0);\n", "			send_key(kbd, new_code, 0);\n			if (mods)\n				update_mods(kbd, -1, 0);\n")]),
 ("seq-release-dl", [(K, "			send_key(kbd, new_code, 0);\n			update_mods(kbd, -1, 0);\n", "			send_key(kbd, new_code, 0);\n			update_mods(kbd, dl, 0);\n")]),
 ("layer-guard", [(K, """			kbd->inhibit_modifier_guard = 1;
			update_mods(kbd, -1, 0);
			kbd->inhibit_modifier_guard = 0;""", """			kbd->inhibit_modifier_guard = 1;
			if (pressed)
				update_mods(kbd, -1, 0);
			kbd->inhibit_modifier_guard = 0;""")]),
 ("layer-else", [(K, "			kbd->inhibit_modifier_guard = 0;\n		} else {\n			update_mods(kbd, -1, 0);\n		}", "			kbd->inhibit_modifier_guard = 0;\n		} else if (!kbd->active_macro) {\n			update_mods(kbd, -1, 0);\n		}")]),
 ("overload-release", [(K, "			deactivate_layer(kbd, idx);\n			update_mods(kbd, -1, 0);\n\n			if (kbd->last_pressed_code == code &&", "			deactivate_layer(kbd, idx);\n			if (kbd->last_pressed_code == code)\n				update_mods(kbd, -1, 0);\n\n			if (kbd->last_pressed_code == code &&")]),
 ("oneshot-release", [(K, "			} else {\n				deactivate_layer(kbd, idx);\n				update_mods(kbd, -1, 0);\n			}", "			} else {\n				deactivate_layer(kbd, idx);\n			}")]),
 ("oneshot-press", [(K, "			update_mods(kbd, dl, 0);\n			kbd->oneshot_latch = 1;", "			kbd->oneshot_latch = 1;")]),
 ("toggle", [(K, "				deactivate_layer(kbd, idx);\n\n			clear_oneshot(kbd);\n			update_mods(kbd, -1, 0);", "				deactivate_layer(kbd, idx);\n\n			update_mods(kbd, -1, 0);\n			clear_oneshot(kbd);")]),
 ("toggle-dl", [(K, "				deactivate_layer(kbd, idx);\n\n			clear_oneshot(kbd);\n			update_mods(kbd, -1, 0);", "				deactivate_layer(kbd, idx);\n\n			clear_oneshot(kbd);\n			update_mods(kbd, dl, 0);")]),
 ("command", [(K, ".cmd);\n			clear_oneshot(kbd);\n			update_mods(kbd, -1, 0);", ".cmd);\n			clear_oneshot(kbd);")]),
 ("swap-oneshot", [(K, "				kbd->layer_state[idx].oneshot_depth++;\n				update_mods(kbd, -1, 0);\n			} else {", "				kbd->layer_state[idx].oneshot_depth++;\n			} else {")]),
 ("swap-hold", [(K, "					activate_layer(kbd, ce->code, idx);\n\n					update_mods(kbd, -1, 0);", "					update_mods(kbd, -1, 0);\n					activate_layer(kbd, ce->code, idx);")]),
 ("swapm-release", [(K, "				send_key(kbd, code, 0);\n				update_mods(kbd, -1, 0);", "				send_key(kbd, code, 0);")]),
 ("expiry", [(K, "		clear_oneshot(kbd);\n		update_mods(kbd, -1, 0);\n	}\n\n	if (kbd->active_macro)", "		clear_oneshot(kbd);\n		if (!code)\n			update_mods(kbd, -1, 0);\n	}\n\n	if (kbd->active_macro)")]),
 ("macro-end", [(K, "			kbd->active_macro = NULL;\n			update_mods(kbd, -1, 0);\n		} else if", "			kbd->active_macro = NULL;\n			if (pressed)\n				update_mods(kbd, -1, 0);\n		} else if")]),
 ("macro-not-armed", [(K, "			kbd->active_macro = macro;", "			if (macro->sz > 1)\n				kbd->active_macro = macro;")]),
 ("mods-first", [(K, "	for (i = 0; i < kbd->config.nr_layers; i++) {\n		struct layer *layer = &kbd->config.layers[i];\n		int excluded = 0;", "	for (i = 1; i < kbd->config.nr_layers - 1; i++) {\n		struct layer *layer = &kbd->config.layers[i];\n		int excluded = 0;")]),
 ("mods-break", [(K, "		if (layer == excluded_layer) {\n			excluded = 1;", "		if (layer == excluded_layer) {\n			break;")]),
 ("mods-inactive", [(K, "		if (!kbd->layer_state[i].active)\n			continue;\n\n		if (layer == excluded_layer)", "		if (!kbd->layer_state[i].active && layer->type != LT_COMPOSITE)\n			continue;\n\n		if (layer == excluded_layer)")]),
 ("mods-normal", [(K, "		if (!excluded)\n			mods |= layer->mods;", "		if (!excluded && layer->type == LT_NORMAL)\n			mods |= layer->mods;")]),
 ("mods-assign", [(K, "			mods |= layer->mods;\n	}\n\n	set_mods", "			mods = layer->mods;\n	}\n\n	set_mods")]),
 ("set-last", [(K, "	for (i = 0; i < ARRAY_SIZE(modifiers); i++) {\n		uint8_t mask = modifiers[i].mask;\n		uint8_t code = modifiers[i].key;\n\n		if (mask & mods) {\n			if (!kbd", "	for (i = 0; i < ARRAY_SIZE(modifiers) - 1; i++) {\n		uint8_t mask = modifiers[i].mask;\n		uint8_t code = modifiers[i].key;\n\n		if (mask & mods) {\n			if (!kbd")]),
 ("set-guard", [(K, "		send_key(kbd, KEYD_LEFTCTRL, 1);\n		send_key(kbd, code, 0);\n		send_key(kbd, KEYD_LEFTCTRL, 0);", "		send_key(kbd, KEYD_LEFTCTRL, 1);\n		send_key(kbd, code, 0);")]),
 ("set-guard2", [(K, "	if (guard && !kbd->keystate[KEYD_LEFTCTRL]) {", "	if (guard) {")]),
 ("set-norelease", [(K, "			if (kbd->keystate[code])\n				clear_mod(kbd, code);", "			if (kbd->keystate[code] && !kbd->inhibit_modifier_guard)\n				clear_mod(kbd, code);")]),
]
REF = [
 ("resync-helper", [(K, "static void execute_macro(", "static void sync_mods(struct keyboard *kbd)\n{\n	update_mods(kbd, -1, 0);\n}\n\nstatic void execute_macro("),
                    (K, "			clear_oneshot(kbd);\n			update_mods(kbd, -1, 0);\n		}\n		break;\n	case OP_SWAP", "			clear_oneshot(kbd);\n			sync_mods(kbd);\n		}\n		break;\n	case OP_SWAP"),
                    (K, "				deactivate_layer(kbd, idx);\n				update_mods(kbd, -1, 0);\n			}", "				deactivate_layer(kbd, idx);\n				sync_mods(kbd);\n			}")]),
 ("layer-guard-flag", [(K, """		if (kbd->last_pressed_code == code) {
			kbd->inhibit_modifier_guard = 1;
			update_mods(kbd, -1, 0);
			kbd->inhibit_modifier_guard = 0;
		} else {
			update_mods(kbd, -1, 0);
		}
""", """		kbd->inhibit_modifier_guard = kbd->last_pressed_code == code;
		update_mods(kbd, -1, 0);
		kbd->inhibit_modifier_guard = 0;
""")]),
 ("overload-hoist", [(K, """			activate_layer(kbd, code, idx);
			update_mods(kbd, -1, 0);
		} else {
			deactivate_layer(kbd, idx);
			update_mods(kbd, -1, 0);

			if (kbd->last""", """			activate_layer(kbd, code, idx);
		} else {
			deactivate_layer(kbd, idx);
		}

		update_mods(kbd, -1, 0);

		if (!pressed) {
			if (kbd->last""")]),
 ("mods-cond", [(K, """		if (!excluded)
			mods |= layer->mods;""", """		if (excluded)
			continue;

		mods = mods | layer->mods;""")]),
 ("mods-excl-helper", [(K, """static void update_mods(struct""", """static int is_excluded(const struct layer *excluded, const struct layer *layer, size_t idx)
{
	size_t j;

	if (!excluded)
		return 0;

	if (layer == excluded)
		return 1;

	if (excluded->type != LT_COMPOSITE)
		return 0;

	for (j = 0; j < excluded->nr_constituents; j++)
		if ((size_t)excluded->constituents[j] == idx)
			return 1;

	return 0;
}

static void update_mods(struct"""), (K, """		int excluded = 0;

		if (!kbd->layer_state[i].active)
			continue;

		if (layer == excluded_layer) {
			excluded = 1;
		} else if (excluded_layer && excluded_layer->type == LT_COMPOSITE) {
			size_t j;

			for (j = 0; j < excluded_layer->nr_constituents; j++)
				if ((size_t)excluded_layer->constituents[j] == i)
					excluded = 1;
		}

		if (!excluded)
			mods |= layer->mods;""", """
		if (kbd->layer_state[i].active && !is_excluded(excluded_layer, layer, i))
			mods |= layer->mods;""")]),
 ("mods-idx", [(K, "		if (layer == excluded_layer) {\n			excluded = 1;", "		if ((int)i == excluded_layer_idx) {\n			excluded = 1;")]),
 ("mods-local", [(K, "	size_t i;\n	struct layer *excluded_layer = excluded_layer_idx == -1 ?", "	size_t i;\n	uint8_t result = mods;\n	struct layer *excluded_layer = excluded_layer_idx == -1 ?"),
                 (K, "			mods |= layer->mods;\n	}\n\n	set_mods(kbd, mods);", "			result |= layer->mods;\n	}\n\n	set_mods(kbd, result);")]),
 ("set-ptr", [(K, """	for (i = 0; i < ARRAY_SIZE(modifiers); i++) {
		uint8_t mask = modifiers[i].mask;
		uint8_t code = modifiers[i].key;

		if (mask & mods) {
			if (!kbd->keystate[code])
				send_key(kbd, code, 1);
		} else {
			if (kbd->keystate[code])
				clear_mod(kbd, code);
		}""", """	for (i = 0; i < ARRAY_SIZE(modifiers); i++) {
		const struct modifier *mod = &modifiers[i];
		const int wanted = (mods & mod->mask) != 0;

		if (wanted == !!kbd->keystate[mod->key])
			continue;

		if (wanted)
			send_key(kbd, mod->key, 1);
		else
			clear_mod(kbd, mod->key);""")]),
 ("set-nocheck", [(K, """			if (!kbd->keystate[code])
				send_key(kbd, code, 1);
		} else {
			if (kbd->keystate[code])
				clear_mod(kbd, code);
		}""", """			send_key(kbd, code, 1);
		} else if (kbd->keystate[code]) {
			clear_mod(kbd, code);
		}""")]),
 ("guard-early", [(K, """	if (guard && !kbd->keystate[KEYD_LEFTCTRL]) {
		send_key(kbd, KEYD_LEFTCTRL, 1);
		send_key(kbd, code, 0);
		send_key(kbd, KEYD_LEFTCTRL, 0);
	} else {
		send_key(kbd, code, 0);
	}""", """	if (!guard || kbd->keystate[KEYD_LEFTCTRL]) {
		send_key(kbd, code, 0);
		return;
	}

	send_key(kbd, KEYD_LEFTCTRL, 1);
	send_key(kbd, code, 0);
	send_key(kbd, KEYD_LEFTCTRL, 0);""")]),
 ("macro-simple-helper", [(K, "static void execute_macro(", "static int is_simple(const struct macro *macro)\n{\n	return macro->sz == 1 && macro->entries[0].type == MACRO_KEYSEQUENCE;\n}\n\nstatic void execute_macro("),
    (K, "	if (macro->sz == 1 && macro->entries[0].type == MACRO_KEYSEQUENCE) {\n		uint8_t code = macro->entries[0].data;\n		uint8_t mods", "	if (is_simple(macro)) {\n		uint8_t code = macro->entries[0].data;\n		uint8_t mods"),
    (K, "			if (macro &&\n			    macro->sz == 1 &&\n			    macro->entries[0].type == MACRO_KEYSEQUENCE) {", "			if (macro && is_simple(macro)) {")]),
 ("expiry-helper", [(K, "static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long time)\n{", "static void expire_oneshot(struct keyboard *kbd, long time)\n{\n	if (!kbd->oneshot_timeout || time < kbd->oneshot_timeout)\n		return;\n\n	clear_oneshot(kbd);\n	update_mods(kbd, -1, 0);\n}\n\nstatic long process_event(struct keyboard *kbd, uint8_t code, int pressed, long time)\n{"),
    (K, "	if (kbd->oneshot_timeout && time >= kbd->oneshot_timeout) {\n		clear_oneshot(kbd);\n		update_mods(kbd, -1, 0);\n	}\n", "	expire_oneshot(kbd, time);\n")]),
]
