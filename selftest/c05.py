K = "src/keyboard.c"
SET = "	for (i = 0; i < CACHE_SIZE; i++)\n		if (kbd->cache[i].code == code) {\n			slot = i;\n			break;\n		} else if (!kbd->cache[i].code) {\n			slot = i;\n		}\n"
GET = "	for (i = 0; i < CACHE_SIZE; i++)\n		if (kbd->cache[i].code == code)\n			return &kbd->cache[i];\n"
PRESS = "			if (cache_get(kbd, code))\n				goto exit;\n\n			lookup_descriptor(kbd, code, &d, &dl);\n\n			if (cache_set(kbd, code, &(struct cache_entry) { .d = d, .dl = dl, .layer = 0 }))\n				goto exit;\n"
REL = "			if (!(ce = cache_get(kbd, code)))\n				goto exit;\n\n			cache_set(kbd, code, NULL);\n\n			d = ce->d;\n			dl = ce->dl;\n"
IDLE = "			for (i = 0; i < CACHE_SIZE; i++) {\n				if (code == kbd->cache[i].code) {\n					kbd->cache[i].d = *action;\n					break;\n				}\n			}\n"
PEND = "		cache_set(kbd, code, &(struct cache_entry) {\n			.d = action,\n			.dl = dl,\n			.layer = 0,\n		});\n		process_descriptor(kbd, code, &action, dl, 1, time);\n\n		/* Flush"
TAP = "					cache_set(kbd, code, &(struct cache_entry) {\n						.d = *action,\n						.dl = dl,\n						.layer = 0,\n					});\n"
MUT = [
    ("set-nobreak", [(K, SET, SET.replace("			break;\n", ""))]),
    ("set-15", [(K, SET, SET.replace("i < CACHE_SIZE", "i < CACHE_SIZE - 1"))]),
    ("set-freefirst", [(K, SET, SET.replace("			slot = i;\n		}\n", "			slot = i;\n			break;\n		}\n"))]),
    ("set-nocode", [(K, "		kbd->cache[slot].code = code;\n", "		if (!kbd->cache[slot].code)\n			kbd->cache[slot].code = code;\n")]),
    ("set-any", [(K, "	if (slot == -1)\n		return -1;\n", "	if (slot == -1)\n		slot = 0;\n")]),
    ("set-okfull", [(K, "	if (slot == -1)\n		return -1;\n", "	if (slot == -1)\n		return 0;\n")]),
    ("set-keep", [(K, "		kbd->cache[slot].code = 0;\n", "		kbd->cache[slot].layer = 0;\n")]),
    ("set-order", [(K, "		kbd->cache[slot] = *ent;\n		kbd->cache[slot].code = code;\n", "		kbd->cache[slot].code = code;\n		kbd->cache[slot] = *ent;\n")]),
    ("set-donly", [(K, "		kbd->cache[slot] = *ent;\n", "		kbd->cache[slot].d = ent->d;\n")]),
    ("get-15", [(K, GET, GET.replace("i = 0", "i = 1"))]),
    ("get-stop", [(K, GET, GET.replace("		if (kbd", "		if (!kbd->cache[i].code)\n			return NULL;\n		else if (kbd"))]),
    ("get-wrong", [(K, GET, GET.replace("code == code", "code == code || kbd->cache[i].layer == code"))]),
    ("press-noguard", [(K, PRESS, PRESS.replace("			if (cache_get(kbd, code))\n				goto exit;\n\n", ""))]),
    ("press-noguard2", [(K, PRESS, PRESS.replace("if (cache_get(kbd, code))", "if (cache_get(kbd, code) && code < KEYD_CHORD_1)"))]),
    ("press-overflow", [(K, PRESS, PRESS.replace("			if (cache_set(", "			cache_set(").replace(" }))\n				goto exit;", " });"))]),
    ("press-d", [(K, PRESS, PRESS + "			if (dl)\n				lookup_descriptor(kbd, code, &d, &dl);\n")]),
    ("press-uncached", [(K, PRESS, PRESS.replace("			if (cache_set(", "			if (d.op != OP_MACRO && cache_set("))]),
    ("press-dl", [(K, PRESS, PRESS.replace(".dl = dl", ".dl = 0"))]),
    ("rel-lookup", [(K, REL, REL.replace("			d = ce->d;\n			dl = ce->dl;\n", "			lookup_descriptor(kbd, code, &d, &dl);\n"))]),
    ("rel-lookup2", [(K, REL, REL + "			if (d.op == OP_KEYSEQUENCE)\n				lookup_descriptor(kbd, code, &d, &dl);\n")]),
    ("rel-nofree", [(K, REL, REL.replace("			cache_set(kbd, code, NULL);\n", "			if (ce->layer)\n				cache_set(kbd, code, NULL);\n"))]),
    ("rel-freeother", [(K, REL, REL.replace("cache_set(kbd, code, NULL)", "cache_set(kbd, kbd->last_pressed_code, NULL)"))]),
    ("rel-dl", [(K, REL, REL.replace("			dl = ce->dl;\n", "			dl = ce->layer;\n"))]),
    ("rel-skip", [(K, REL, REL + "			if (d.op == OP_LAYER && kbd->oneshot_latch)\n				goto exit;\n")]),
    ("rel-unheld", [(K, REL, REL.replace("				goto exit;\n\n			cache_set", "				ce = &kbd->cache[0];\n\n			cache_set"))]),
    ("idle-noupdate", [(K, IDLE, "")]),
    ("idle-wrong", [(K, IDLE, IDLE.replace("code == kbd", "code <= kbd"))]),
    ("idle-short", [(K, IDLE, IDLE.replace("i < CACHE_SIZE", "i < CACHE_SIZE - 4"))]),
    ("idle-cond", [(K, IDLE, "			if (action->op == OP_KEYSEQUENCE)\n" + IDLE)]),
    ("idle-other", [(K, IDLE, IDLE.replace("= *action", "= kbd->config.descriptors[d->args[0].idx]"))]),
    ("pend-nocache", [(K, PEND, "		if (action.op != OP_LAYER)\n" + PEND)]),
    ("pend-other", [(K, PEND, PEND.replace(".d = action", ".d = kbd->pending_key.action1"))]),
    ("pend-late", [(K, PEND, "		process_descriptor(kbd, code, &action, dl, 1, time);\n" + PEND.replace("		process_descriptor(kbd, code, &action, dl, 1, time);\n", ""))]),
    ("tap-nocache", [(K, TAP, "")]),
    ("tap-direct", [(K, "					process_event(kbd, code, 0, time);\n", "					process_descriptor(kbd, code, action, dl, 0, time);\n")]),
    ("poke", [(K, "	kbd->layer_state[idx].active--;\n", "	kbd->layer_state[idx].active--;\n	if (!kbd->layer_state[idx].active)\n		kbd->cache[0].code = 0;\n")]),
    ("poke2", [(K, "	kbd->active_macro = NULL;\n\n	reset_keystate(kbd);", "	kbd->active_macro = NULL;\n	memset(kbd->cache, 0, sizeof kbd->cache);\n	reset_keystate(kbd);")]),
    ("keyseq-noup", [(K, "			send_key(kbd, new_code, 0);\n			update_mods(kbd, -1, 0);\n		}\n\n		if (!mods", "			if (!mods)\n				send_key(kbd, new_code, 0);\n			update_mods(kbd, -1, 0);\n		}\n\n		if (!mods")]),
    ("keyseq-order", [(K, "			send_key(kbd, new_code, 1);\n			clear_oneshot(kbd);", "			if (!kbd->keystate[new_code])\n				send_key(kbd, new_code, 1);\n			clear_oneshot(kbd);\n			if (mods)\n				send_key(kbd, new_code, 0);")]),
    ("dup-pending", [(K, "	if (code && pressed && cache_get(kbd, code))\n		return 0;\n\n	if (code) {", "	if (code) {")]),
]
REF = [
    ("press-helper", [(K, "static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long time)\n{", "static int remember(struct keyboard *kbd, uint8_t code, const struct descriptor *d, int dl)\n{\n	struct cache_entry ent = { .d = *d, .dl = dl };\n	return cache_set(kbd, code, &ent);\n}\n\nstatic long process_event(struct keyboard *kbd, uint8_t code, int pressed, long time)\n{"),
                      (K, PRESS, "			if (cache_get(kbd, code))\n				goto exit;\n\n			lookup_descriptor(kbd, code, &d, &dl);\n\n			if (remember(kbd, code, &d, dl) < 0)\n				goto exit;\n")]),
    ("rel-order", [(K, REL, "			ce = cache_get(kbd, code);\n			if (ce == NULL)\n				goto exit;\n\n			d = ce->d;\n			dl = ce->dl;\n			cache_set(kbd, code, NULL);\n")]),
    ("idle-get", [(K, IDLE, "			struct cache_entry *ce = cache_get(kbd, code);\n			if (ce)\n				ce->d = *action;\n")]),
    ("get-down", [(K, GET, "	for (i = CACHE_SIZE; i-- > 0;)\n		if (code == kbd->cache[i].code)\n			return kbd->cache + i;\n")]),
    ("set-ptr", [(K, SET, "	for (i = 0; i < CACHE_SIZE; i++) {\n		if (kbd->cache[i].code == code) {\n			slot = i;\n			break;\n		}\n		if (slot == -1 && kbd->cache[i].code == 0)\n			slot = i;\n	}\n")]),
    ("set-early", [(K, SET, SET.replace("slot = -1", "slot = -1")), (K, "	if (slot == -1)\n		return -1;\n\n	if (ent == NULL) {\n		kbd->cache[slot].code = 0;\n	} else {\n		kbd->cache[slot] = *ent;\n		kbd->cache[slot].code = code;\n	}\n\n	return 0;\n", "	if (slot != -1) {\n		struct cache_entry *ce = &kbd->cache[slot];\n\n		if (ent) {\n			*ce = *ent;\n			ce->code = code;\n		} else {\n			ce->code = 0;\n		}\n		return 0;\n	}\n\n	return -1;\n")]),
    ("pend-var", [(K, "		cache_set(kbd, code, &(struct cache_entry) {\n			.d = action,\n			.dl = dl,\n			.layer = 0,\n		});\n		process_descriptor(kbd, code, &action, dl, 1, time);\n\n		/* Flush", "		struct cache_entry ent = {0};\n		ent.dl = dl;\n		ent.d = action;\n		cache_set(kbd, code, &ent);\n		process_descriptor(kbd, code, &ent.d, dl, 1, time);\n\n		/* Flush")]),
    ("split", [(K, "		process_descriptor(kbd, code, &d, dl, pressed, time);\n	}\n\n\nexit:", "		if (pressed)\n			process_descriptor(kbd, code, &d, dl, 1, time);\n		else\n			process_descriptor(kbd, code, &d, dl, 0, time);\n	}\n\n\nexit:")]),
]
