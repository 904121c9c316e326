K = "src/keyboard.c"
L = "			if (layer->keymap[code].op && activation_time >= maxts) {\n				maxts = activation_time;\n				*d = layer->keymap[code];\n				*dl = i;\n			}"
C = "			if (match && layer->keymap[code].op && (layer->nr_constituents > max)) {"
S = "	kbd->layer_state[idx].activation_time = get_time();\n	kbd->layer_state[idx].active++;\n"
M = "			if (ret == 2 &&\n				maxts <= kbd->layer_state[idx].activation_time) {"
MUT = [
    ("first-wins", [(K, "activation_time >= maxts) {", "activation_time < maxts) {")]),
    ("strict", [(K, "activation_time >= maxts) {", "activation_time > maxts) {")]),
    ("int-max", [(K, "	long maxts = 0;\n", "	int maxts = 0;\n")]),
    ("int-time", [(K, "			long activation_time = kbd", "			int activation_time = kbd")]),
    ("no-active", [(K, "		if (kbd->layer_state[i].active) {\n			long", "		{\n			long")]),
    ("ignore-binds", [(K, "			if (layer->keymap[code].op && activation_time >= maxts) {\n				maxts = activation_time;\n", "			if (activation_time >= maxts) {\n				maxts = activation_time;\n				if (!layer->keymap[code].op)\n					continue;\n")]),
    ("max-outside", [(K, L, L.replace("				maxts = activation_time;\n", "").replace("			}", "			}\n			maxts = activation_time;"))]),
    ("no-max", [(K, "				maxts = activation_time;\n", "")]),
    ("origin-lost", [(K, "				*d = layer->keymap[code];\n				*dl = i;\n			}", "				*d = layer->keymap[code];\n			}")]),
    ("break", [(K, "				*dl = i;\n			}\n", "				*dl = i;\n				if (i)\n					break;\n			}\n")]),
    ("from-one", [(K, "	for (i = 0; i < kbd->config.nr_layers; i++) {\n		struct layer *layer = &kbd->config.layers[i];\n\n		if (kbd->layer_state[i].active) {\n			long", "	for (i = 1; i < kbd->config.nr_layers; i++) {\n		struct layer *layer = &kbd->config.layers[i];\n\n		if (kbd->layer_state[i].active) {\n			long")]),
    ("comp-smallest", [(K, C, C.replace("> max", "> 0"))]),
    ("comp-first", [(K, C, C.replace("layer->nr_constituents > max", "!max"))]),
    ("comp-nomax", [(K, "				max = layer->nr_constituents;\n", "")]),
    ("comp-any", [(K, "				else\n					match = 0;\n", "				else if (!mods)\n					match = 0;\n")]),
    ("comp-last", [(K, "				else\n					match = 0;\n", "				match = !!kbd->layer_state[layer->constituents[j]].active;\n")]),
    ("comp-short", [(K, "for (j = 0; j < layer->nr_constituents; j++) {\n				if (kbd", "for (j = 0; j + 1 < layer->nr_constituents; j++) {\n				if (kbd")]),
    ("comp-nobind", [(K, C, C.replace("layer->keymap[code].op && ", ""))]),
    ("comp-origin", [(K, "				*dl = i;\n\n				max", "				max")]),
    ("comp-weak", [(K, C, C.replace("if (match", "if (!d->op && match"))]),
    ("comp-two", [(K, C, C.replace("layer->nr_constituents > max", "layer->nr_constituents > max && layer->nr_constituents < 8"))]),
    ("key-code", [(K, "		d->op = OP_KEYSEQUENCE;\n		d->args[0].code = code;", "		d->op = OP_KEYSEQUENCE;\n		d->args[0].code = code + 1;")]),
    ("key-always", [(K, "	if (!d->op) {\n		d->op = OP_KEYSEQUENCE;", "	if (!d->op || d->op == 7) {\n		d->op = OP_KEYSEQUENCE;")]),
    ("chord-off", [(K, "		*d = kbd->active_chords[idx].chord.d;", "		*d = kbd->active_chords[idx ? idx - 1 : 0].chord.d;")]),
    ("chord-origin", [(K, "		*dl = kbd->active_chords[idx].layer;", "		*dl = kbd->active_chords[0].layer;")]),
    ("chord-last", [(K, "	if (code >= KEYD_CHORD_1 && code <= KEYD_CHORD_MAX) {\n		size_t idx = code - KEYD_CHORD_1;\n\n		*d", "	if (code >= KEYD_CHORD_1 && code < KEYD_CHORD_MAX) {\n		size_t idx = code - KEYD_CHORD_1;\n\n		*d")]),
    ("stamp-first-only", [(K, S, "	if (!kbd->layer_state[idx].active)\n		kbd->layer_state[idx].activation_time = get_time();\n	kbd->layer_state[idx].active++;\n")]),
    ("stamp-none", [(K, S, "	kbd->layer_state[idx].active++;\n")]),
    ("stamp-other", [(K, S, "	kbd->layer_state[0].activation_time = get_time();\n	kbd->layer_state[idx].active++;\n")]),
    ("counter-one", [(K, "static long time = 2;", "static long time = 1;")]),
    ("counter-stays", [(K, "	return time++;", "	return time;")]),
    ("layout-zero", [(K, "		kbd->layer_state[idx].activation_time = 1;", "		kbd->layer_state[idx].activation_time = 0;")]),
    ("layout-high", [(K, "		kbd->layer_state[idx].activation_time = 1;", "		kbd->layer_state[idx].activation_time = 2;")]),
    ("main-one", [(K, "	kbd->layer_state[0].activation_time = 0;", "	kbd->layer_state[0].activation_time = 1;")]),
    ("ch-strict-rev", [(K, M, M.replace("maxts <=", "maxts >="))]),
    ("ch-nomax", [(K, "				full_match = 1;\n				maxts = kbd->layer_state[idx].activation_time;\n", "				full_match = 1;\n")]),
    ("ch-inactive", [(K, "		if (!kbd->layer_state[idx].active)\n			continue;\n\n		for (i = 0; i < layer->nr_chords", "		for (i = 0; i < layer->nr_chords")]),
    ("ch-partial", [(K, "			} else if (ret == 1) {\n				partial_match = 1;\n			}", "			} else if (ret == 1 && !full_match) {\n				partial_match = 1;\n			}")]),
    ("ch-layer", [(K, "				*chord_layer = (int)idx;\n", "				if (!full_match)\n					*chord_layer = (int)idx;\n")]),
    ("ch-ptr", [(K, "				*chord = &layer->chords[i];\n", "				*chord = &layer->chords[0];\n")]),
    ("ch-int", [(K, "	long maxts = -1;\n", "	int maxts = -1;\n")]),
    ("ch-firstchord", [(K, "		for (i = 0; i < layer->nr_chords; i++) {\n			int ret", "		for (i = 0; i < layer->nr_chords && !full_match; i++) {\n			int ret")]),
]
REF = [
    ("best-index", [(K, "	long maxts = 0;\n\n	if", "	long maxts = 0;\n	int best = -1;\n\n	if"), (K, L, "			if (layer->keymap[code].op && activation_time >= maxts) {\n				maxts = activation_time;\n				best = (int)i;\n			}"),
        (K, "	max = 0;\n	/* Scan", "	if (best >= 0) {\n		*d = kbd->config.layers[best].keymap[code];\n		*dl = best;\n	}\n\n	max = 0;\n	/* Scan")]),
    ("best-ptr", [(K, "	long maxts = 0;\n\n	if", "	long maxts = 0;\n	const struct descriptor *best = NULL;\n\n	if"), (K, L, "			if (layer->keymap[code].op && activation_time >= maxts) {\n				maxts = activation_time;\n				best = &layer->keymap[code];\n				*dl = i;\n			}"),
        (K, "	max = 0;\n	/* Scan", "	if (best)\n		*d = *best;\n\n	max = 0;\n	/* Scan")]),
    ("helper-match", [(K, "static void lookup_descriptor(", "static int composite_active(struct keyboard *kbd, const struct layer *layer)\n{\n	size_t j;\n\n	for (j = 0; j < layer->nr_constituents; j++)\n		if (!kbd->layer_state[layer->constituents[j]].active)\n			return 0;\n\n	return 1;\n}\n\nstatic void lookup_descriptor("),
        (K, "			size_t j;\n			int match = 1;\n			uint8_t mods = 0;\n\n			for (j = 0; j < layer->nr_constituents; j++) {\n				if (kbd->layer_state[layer->constituents[j]].active)\n					mods |= kbd->config.layers[layer->constituents[j]].mods;\n				else\n					match = 0;\n			}\n", "			int match = composite_active(kbd, layer);\n")]),
    ("while", [(K, "	max = 0;\n	/* Scan for any composite matches (which take precedence). */\n	for (i = 0; i < kbd->config.nr_layers; i++) {\n		struct layer *layer = &kbd->config.layers[i];\n", "	max = 0;\n	i = 0;\n	while (i < kbd->config.nr_layers) {\n		struct layer *layer = &kbd->config.layers[i];\n"),
        (K, "				max = layer->nr_constituents;\n			}\n		}\n	}", "				max = layer->nr_constituents;\n			}\n		}\n		i++;\n	}")]),
    ("stamp-after", [(K, S, "	kbd->layer_state[idx].active++;\n	kbd->layer_state[idx].activation_time = get_time();\n")]),
    ("stamp-pre", [(K, "	static long time = 2;\n	return time++;", "	static long time = 1;\n	return ++time;")]),
    ("stamp-helper", [(K, "static void activate_layer(", "static void stamp_layer(struct keyboard *kbd, int idx)\n{\n	kbd->layer_state[idx].activation_time = get_time();\n}\n\nstatic void activate_layer("), (K, S, "	stamp_layer(kbd, idx);\n	kbd->layer_state[idx].active++;\n")]),
    ("up-helper", [(K, "static void activate_layer(", "static void count_layer(struct keyboard *kbd, int idx)\n{\n	kbd->layer_state[idx].active++;\n}\n\nstatic void activate_layer("), (K, S, "	kbd->layer_state[idx].activation_time = get_time();\n	count_layer(kbd, idx);\n")]),
    ("ch-nested", [(K, "			if (ret == 2 &&\n				maxts <= kbd->layer_state[idx].activation_time) {\n				*chord_layer = (int)idx;\n				*chord = &layer->chords[i];\n\n				full_match = 1;\n				maxts = kbd->layer_state[idx].activation_time;\n			} else if (ret == 1) {\n				partial_match = 1;\n			}",
        "			switch (ret) {\n			case 2:\n				if (maxts > kbd->layer_state[idx].activation_time)\n					break;\n				maxts = kbd->layer_state[idx].activation_time;\n				*chord = layer->chords + i;\n				*chord_layer = (int)idx;\n				full_match = 1;\n				break;\n			case 1:\n				partial_match = 1;\n				break;\n			}")]),
    ("ch-return", [(K, "	if (full_match)\n		return partial_match ? 3 : 2;\n	else if (partial_match)\n		return 1;\n	else\n		return 0;", "	return full_match * 2 + partial_match;")]),
]
