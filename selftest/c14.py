C = "src/config.c"
K = "src/keyboard.c"
D = "src/daemon.c"
MUT = [
    ("store-before-refuse", [(C, "			if (!(code = lookup_keycode(key))) {\n				err(", "			layer->keymap[0] = *d;\n			if (!(code = lookup_keycode(key))) {\n				err(")]),
    ("store-any", [(C, "			if (!(code = lookup_keycode(key))) {\n				err(\"%s is not a valid key or alias\", key);\n				return -1;\n			}\n", "			code = lookup_keycode(key);\n")]),
    ("quiet-nokey", [(C, '				err("%s is not a valid key or alias", key);\n', "")]),
    ("quiet-chordkey", [(C, '				err("%s is not a valid key", tok);\n', "")]),
    ("quiet-chords", [(C, '				err("max chords exceeded(%ld)", layer->nr_chords);\n', "")]),
    ("quiet-layer", [(C, '	if (idx == -1) {\n		err("%s is not a valid layer", layername);\n', "	if (idx == -1) {\n")]),
    ("layer-fallback", [(C, '		err("%s is not a valid layer", layername);\n		return -1;', "		idx = 0;")]),
    ("layer-next", [(C, "layer = &config->layers[idx];\n\n	if (parse_descriptor(d", "layer = &config->layers[idx+1];\n\n	if (parse_descriptor(d")]),
    ("parse-ignored", [(C, "	if (parse_descriptor(descstr, &d, config) < 0)\n		return -1;\n\n	return set", "	parse_descriptor(descstr, &d, config);\n\n	return set")]),
    ("parse-after", [(C, "	if (parse_descriptor(descstr, &d, config) < 0)\n		return -1;\n\n	return set_layer_entry(config, layer, keyname, &d);", "	memset(&d, 0, sizeof d);\n	if (set_layer_entry(config, layer, keyname, &d) < 0)\n		return -1;\n	if (parse_descriptor(descstr, &d, config) < 0)\n		return -1;\n	return set_layer_entry(config, layer, keyname, &d);")]),
    ("alias-index", [(C, "				layer->keymap[i] = *d;\n				found = 1;", "				layer->keymap[lookup_keycode(key)] = *d;\n				found = 1;")]),
    ("alias-unfound", [(C, "				layer->keymap[i] = *d;\n				found = 1;", "				found = 1;")]),
    ("alias-off", [(C, "				layer->keymap[i] = *d;\n				found = 1;", "				layer->keymap[(i+1)%256] = *d;\n				found = 1;")]),
    ("key-lost", [(C, "			layer->keymap[code] = *d;\n\n", "")]),
    ("key-off", [(C, "			layer->keymap[code] = *d;\n\n", "			layer->keymap[code-1] = *d;\n\n")]),
    ("key-both", [(C, "			layer->keymap[code] = *d;\n\n", "			layer->keymap[code] = *d;\n			layer->keymap[code ^ 1] = *d;\n\n")]),
    ("chord-uncounted", [(C, "			layer->nr_chords++;\n", "")]),
    ("chord-count2", [(C, "			layer->nr_chords++;\n", "			layer->nr_chords += 2;\n")]),
    ("chord-count-found", [(C, "			layer->nr_chords++;\n		}", "		}\n		layer->nr_chords++;")]),
    ("chord-nosz", [(C, "			chord->sz = n;\n", "")]),
    ("chord-sz", [(C, "			chord->sz = n;\n", "			chord->sz = sizeof keys;\n")]),
    ("chord-dup", [(C, "		if ((ld = layer_lookup_chord(layer, keys, n))) {", "		if ((ld = layer_lookup_chord(layer, keys, n)) && n > 2) {")]),
    ("chord-found-lost", [(C, "			*ld = *d;\n		} else {", "		} else {")]),
    ("chord-sub", [(C, "		if (n != chord->sz)\n			continue;\n", "")]),
    ("chord-half", [(C, "		if (nm == 2*n)", "		if (nm >= n)")]),
    ("chord-order", [(C, "		if (nm == 2*n)", "		if (!memcmp(chord->keys, keys, n))")]),
    ("chord-one", [(C, "		if (nm == 2*n)", "		if (nm)")]),
    ("chord-last", [(C, "		if (nm == 2*n)\n			return &chord->d;", "		if (nm == 2*n && i)\n			return &chord->d;")]),
    ("dot-eq", [(C, " && (!eq || dot < eq)) {", ") {")]),
    ("dot-paren", [(C, "dot != s && (!paren || dot < paren)", "dot != s")]),
    ("dot-first", [(C, "if (dot && dot != s &&", "if (dot &&")]),
    ("dot-keep", [(C, "		*dot = 0;\n		s = dot+1;", "		s = dot+1;")]),
    ("dot-s", [(C, "		*dot = 0;\n		s = dot+1;", "		*dot = 0;\n		s = dot;")]),
    ("default-layer", [(C, 'char *layername = "main";\n	struct descriptor d;', 'char *layername = config->layers[0].name;\n	struct descriptor d;')]),
    ("untold", [(C, "			if (config_add_entry(config, entry) < 0)\n				keyd_log", "			if (config_add_entry(config, entry) < 0 && ent->lnum)\n				keyd_log")]),
    ("untold2", [(C, "			if (config_add_entry(config, entry) < 0)\n				keyd_log(\"\\tr{ERROR:} line m{%zd}: %s\\n\", ent->lnum, errstr);", "			config_add_entry(config, entry);")]),
    ("told-inv", [(C, "			if (config_add_entry(config, entry) < 0)\n				keyd_log", "			if (config_add_entry(config, entry) > 0)\n				keyd_log")]),
    ("eval-drop", [(K, "		return config_add_entry(&kbd->config, exp);", "		config_add_entry(&kbd->config, exp);\n		return 0;")]),
    ("eval-inv", [(K, "		return config_add_entry(&kbd->config, exp);", "		return !config_add_entry(&kbd->config, exp);")]),
    ("eval-skip", [(K, "		return config_add_entry(&kbd->config, exp);", "		return config_add_entry(&kbd->config, exp + 1);")]),
    ("stale", [(D, '		err("no configuration is loaded");\n', "")]),
    ("inplace", [(C, "	if (parse_descriptor(descstr, &d, config) < 0)\n		return -1;\n\n	return set", "	if (lookup_keycode(keyname)) {\n		if (parse_descriptor(descstr, &layer->keymap[lookup_keycode(keyname)], config) < 0)\n			return -1;\n		return 0;\n	}\n	if (parse_descriptor(descstr, &d, config) < 0)\n		return -1;\n\n	return set")]),
    ("value-key", [(C, "	if (parse_descriptor(descstr, &d, config) < 0)\n		return -1;\n\n	return set", "	if (parse_descriptor(descstr ? descstr : keyname, &d, config) < 0)\n		return -1;\n	if (d.op == OP_KEYSEQUENCE)\n		d.args[1].mods = 0;\n\n	return set")]),
    ("nargs-silent", [(C, '				if ((int)nargs != j) {\n					err("%s requires %d %s", actions[i].name, j, j == 1 ? "argument" : "arguments");', '				if ((int)nargs != j) {')]),
]
REF = [
    ("helper-store", [(C, "static int set_layer_entry(const struct config *config,", "static void put(struct descriptor *t, const struct descriptor *d)\n{\n	*t = *d;\n}\n\nstatic int set_layer_entry(const struct config *config,"),
                      (C, "			layer->keymap[code] = *d;\n\n", "			put(&layer->keymap[code], d);\n"), (C, "			*ld = *d;\n", "			put(ld, d);\n"),
                      (C, "				layer->keymap[i] = *d;\n				found = 1;", "				put(layer->keymap + i, d);\n				found++;")]),
    ("while-alias", [(C, "		for (i = 0; i < 256; i++) {\n			if (!strcmp(config->aliases[i], key)) {", "		i = 0;\n		while (i < ARRAY_SIZE(config->aliases)) {\n			if (strcmp(config->aliases[i], key) == 0) {"),
                     (C, "				layer->keymap[i] = *d;\n				found = 1;\n			}\n", "				layer->keymap[i] = *d;\n				found = 1;\n			}\n			i++;\n")]),
    ("lookup-first", [(C, "		if (!found) {\n			uint8_t code;\n\n			if (!(code = lookup_keycode(key))) {", "		if (!found) {\n			const uint8_t code = lookup_keycode(key);\n\n			if (code == 0) {")]),
    ("layer-first", [(C, "	parse_kvp(s, &keyname, &descstr);\n	idx = config_get_layer_index(config, layername);\n", "	idx = config_get_layer_index(config, layername);\n"), (C, "	layer = &config->layers[idx];\n\n	if (parse_d", "	layer = config->layers + idx;\n	parse_kvp(s, &keyname, &descstr);\n\n	if (parse_d")]),
    ("chord-memcpy", [(C, "			chord = &layer->chords[layer->nr_chords];\n			memcpy(chord->keys, keys, sizeof keys);\n			chord->sz = n;\n			chord->d = *d;\n\n			layer->nr_chords++;", "			chord = &layer->chords[layer->nr_chords++];\n			chord->d = *d;\n			chord->sz = n;\n			memcpy(chord->keys, keys, sizeof keys);")]),
    ("chord-flag", [(C, "		if (nm == 2*n)\n			return &chord->d;\n", "		if (nm != 2*n)\n			continue;\n		return &chord->d;\n")]),
    ("chord-all", [(C, "		/* Every key has to be in both of them (one may be repeated). */\n		for (j = 0; j < n; j++) {\n			if (memchr(chord->keys, keys[j], n))\n				nm++;\n\n			if (memchr(keys, chord->keys[j], n))\n				nm++;\n		}\n\n		if (nm == 2*n)\n			return",
                       "		nm = 1;\n		for (j = 0; j < n && nm; j++)\n			nm = memchr(chord->keys, keys[j], n) && memchr(keys, chord->keys[j], n);\n\n		if (nm)\n			return")]),
    ("ptr", [(C, "	s = buf;\n\n	dot = strchr(s, '.');\n	paren = strchr(s, '(');", "	s = &buf[0];\n\n	paren = strchr(s, '(');\n	dot = strchr(s, '.');")]),
    ("named-flag", [(C, "	if (dot && dot != s && (!paren || dot < paren) && (!eq || dot < eq)) {", "	int named = dot && dot > s;\n	if (paren && paren < dot)\n		named = 0;\n	if (eq && eq < dot)\n		named = 0;\n	if (named) {")]),
    ("result", [(C, "	if (parse_descriptor(descstr, &d, config) < 0)\n		return -1;\n\n	return set_layer_entry(config, layer, keyname, &d);", "	int rc = parse_descriptor(descstr, &d, config);\n	if (!(rc < 0))\n		rc = set_layer_entry(config, layer, keyname, &d);\n	return rc;")]),
    ("told-helper", [(C, "			if (config_add_entry(config, entry) < 0)\n				keyd_log(\"\\tr{ERROR:} line m{%zd}: %s\\n\", ent->lnum, errstr);", "			int bad = config_add_entry(config, entry);\n			if (!bad)\n				continue;\n			keyd_log(\"\\tr{ERROR:} line m{%zd}: %s\\n\", ent->lnum, errstr);")]),
    ("eval-var", [(K, "		return config_add_entry(&kbd->config, exp);", "		int rc = config_add_entry(&kbd->config, exp);\n		return rc;")]),
    ("bind-count", [(D, "			if (!kbd_eval(ent->kbd, msg.data))\n				success = 1;", "			success |= kbd_eval(ent->kbd, msg.data) == 0;")]),
    ("strlen-last", [(C, "	strcpy(buf, exp);\n	s = buf;", "	memcpy(buf, exp, strlen(exp) + 1);\n	s = buf;")]),
]
