K = "src/keyboard.c"
D = "	case CHORD_PENDING_DISAMBIGUATION:\n		if (!code) {\n			if ((time - kbd->chord.last_code_time) >= interkey_timeout) {"
HO = "			if ((time - kbd->chord.last_code_time) >= hold_timeout)\n				return resolve_chord(kbd);"
AB = "		if (!pressed || kbd->chord.queue_sz >= ARRAY_SIZE(kbd->chord.queue))\n			return abort_chord(kbd);"
RL = "		if (!pressed) {\n			size_t i;\n\n			for (i = 0; i < kbd->chord.match->sz; i++)\n				if (kbd->chord.match->keys[i] == code)\n					return abort_chord(kbd);\n		}\n"
I0 = "		kbd->chord.queue_sz = 0;\n		kbd->chord.match = NULL;\n		kbd->chord.start_code = code;\n"
P1 = "				kbd->chord.last_code_time = time;\n\n				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;\n"
P0 = "				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;\n				kbd->chord.last_code_time = time;\n"
F = "				kbd->chord.last_code_time = time;\n\n				if (hold_timeout) {\n					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;\n					schedule_timeout(kbd, time + hold_timeout);\n				} else {\n					return resolve_chord(kbd);\n				}\n				return 1;\n		}\n	case CHORD_PENDING_HOLD"
TL = "					long timeleft = hold_timeout - interkey_timeout;\n					if (timeleft > 0) {"
Z = "					if (nremaining == 0) {\n						ac->active = 0;\n						process_event(kbd, chord_code, 0, time);\n					}\n\n					return 1;"
MUT = [
    ("gap-strict", [(K, D, D.replace(">=", ">"))]),
    ("gap-int", [(K, D, D.replace("(time - kbd->chord.last_code_time)", "(int)time - (int)kbd->chord.last_code_time").replace(">= interkey", ">= (int)interkey").replace("if ((int)time", "if ((long)(int)time").replace(" - (int)kbd", " - (long)(int)kbd"))]),
    ("gap-fire", [(K, "				if (kbd->chord.match) {\n" + TL, "				if (kbd->chord.match || hold_timeout) {\n" + TL)]),
    ("gap-never", [(K, TL, TL.replace("timeleft > 0", "timeleft >= 0 || hold_timeout"))]),
    ("gap-hold0", [(K, TL, TL.replace("hold_timeout - interkey_timeout", "hold_timeout"))]),
    ("gap-nostate", [(K, "						schedule_timeout(kbd, time + timeleft);\n						kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;\n", "						schedule_timeout(kbd, time + timeleft);\n")]),
    ("gap-abort", [(K, "				} else {\n					return abort_chord(kbd);\n				}\n\n				return 1;", "				}\n\n				return 1;")]),
    ("hold-strict", [(K, HO, HO.replace(">=", ">"))]),
    ("hold-abort", [(K, HO, HO.replace("resolve", "abort"))]),
    ("hold-foreign", [(K, RL, "		if (!pressed)\n			return abort_chord(kbd);\n")]),
    ("hold-ignored", [(K, RL, "")]),
    ("hold-first", [(K, RL, RL.replace("i < kbd->chord.match->sz", "i < 1"))]),
    ("hold-fire", [(K, RL, RL.replace("abort", "resolve"))]),
    ("dis-release", [(K, AB, AB.replace("!pressed || ", ""))]),
    ("dis-fire", [(K, AB, AB.replace("abort", "resolve"))]),
    ("dis-nomatch", [(K, "			case 0:\n				return abort_chord(kbd);", "			case 0:\n				return kbd->chord.match ? resolve_chord(kbd) : abort_chord(kbd);")]),
    ("dis-time", [(K, P1, P1.replace("				kbd->chord.last_code_time = time;\n\n", ""))]),
    ("dis-amb", [(K, "			case 0:\n				return abort_chord(kbd);\n			case 3:\n			case 1:", "			case 0:\n				return abort_chord(kbd);\n			case 1:")]),
    ("init-amb", [(K, P0, P0.replace("				kbd->chord.last_code_time = time;\n", ""))]),
    ("full-time", [(K, F, F.replace("				kbd->chord.last_code_time = time;\n\n", "", 1))]),
    ("full-fire", [(K, F, F.replace("if (hold_timeout)", "if (hold_timeout > interkey_timeout)"))]),
    ("full-hold", [(K, F, F.replace("				if (hold_timeout) {\n", "				{\n").replace("				} else {\n					return resolve_chord(kbd);\n				}\n", "				}\n"))]),
    ("init-queue", [(K, I0, I0.replace("		kbd->chord.queue_sz = 0;\n", ""))]),
    ("init-match", [(K, I0, I0.replace("		kbd->chord.match = NULL;\n", ""))]),
    ("no-resolving", [(K, "	kbd->chord.state = CHORD_RESOLVING;\n\n	if (chord)", "	kbd->chord.state = CHORD_INACTIVE;\n\n	if (chord)")]),
    ("no-inactive", [(K, "			   kbd->chord.queue_sz - queue_offset);\n	kbd->chord.state = CHORD_INACTIVE;\n", "			   kbd->chord.queue_sz - queue_offset);\n")]),
    ("abort-match", [(K, "	kbd->chord.match = NULL;\n	return resolve_chord(kbd);", "	return resolve_chord(kbd);")]),
    ("off-none", [(K, "			queue_offset = chord->sz;\n", "")]),
    ("off-all", [(K, "			queue_offset = chord->sz;\n", "			queue_offset = kbd->chord.queue_sz;\n")]),
    ("off-outside", [(K, "			queue_offset = chord->sz;\n", ""), (K, "	if (chord) {\n		size_t i;\n		uint8_t code = 0;\n", "	if (chord) {\n		size_t i;\n		uint8_t code = 0;\n\n		queue_offset = chord->sz;\n")]),
    ("n-wrong", [(K, "			   kbd->chord.queue_sz - queue_offset);", "			   kbd->chord.queue_sz - 2 * queue_offset);")]),
    ("slot-code", [(K, "				code = KEYD_CHORD_1 + i;\n", "				code = KEYD_CHORD_1;\n")]),
    ("slot-active", [(K, "			if (!ac->active) {\n				ac->active = 1;", "			{\n				ac->active = 1;")]),
    ("slot-copy", [(K, "				ac->chord = *chord;\n", "				kbd->active_chords[0].chord = *chord;\n")]),
    ("rel-first", [(K, Z, Z.replace("if (nremaining == 0)", ""))]),
    ("rel-pass", [(K, Z, Z.replace("return 1", "return 0"))]),
    ("rel-code", [(K, Z, Z.replace("kbd, chord_code", "kbd, KEYD_CHORD_1"))]),
    ("rel-never", [(K, Z, Z.replace("nremaining == 0", "nremaining == 0 && kbd->chord.state == CHORD_INACTIVE"))]),
    ("rel-note", [(K, "						ac->chord.keys[i] = 0;\n", "")]),
    ("rel-remaining", [(K, "					if (ac->chord.keys[i])\n						nremaining++;", "					if (ac->chord.keys[i] && !found)\n						nremaining++;")]),
    ("match-foreign", [(K, "			if (!found)\n				return 0;\n			else\n				n++;", "			if (found)\n				n++;")]),
    ("match-part", [(K, "		return n == chord->sz ? 2 : 1;", "		return n >= 2 ? 2 : 1;")]),
    ("match-cap", [(K, "		return n == chord->sz ? 2 : 1;", "		return n == chord->sz || n > 6 ? 2 : 1;")]),
    ("match-short", [(K, "			for (j = 0; j < chord->sz; j++)\n				if (chord->keys[j] == events[i].code)", "			for (j = 0; j < chord->sz && j < 7; j++)\n				if (chord->keys[j] == events[i].code)")]),
    ("enq-pressed", [(K, "	kbd->chord.queue[kbd->chord.queue_sz].pressed = pressed;", "	kbd->chord.queue[kbd->chord.queue_sz].pressed = 1;")]),
    ("enq-none", [(K, "	kbd->chord.queue_sz++;\n}", "	if (pressed)\n		kbd->chord.queue_sz++;\n}")]),
    ("res-keep", [(K, "	case CHORD_RESOLVING:\n		return 0;", "	case CHORD_RESOLVING:\n		return !pressed;")]),
]
REF = [
    ("gap-local", [(K, "	switch (kbd->chord.state) {\n	case CHORD_RESOLVING:", "	const long passed = time - kbd->chord.last_code_time;\n\n	switch (kbd->chord.state) {\n	case CHORD_RESOLVING:"), (K, D, D.replace("(time - kbd->chord.last_code_time)", "passed")), (K, HO, HO.replace("(time - kbd->chord.last_code_time)", "passed"))]),
    ("gap-neg", [(K, HO + "\n\n			return 0;", "			if (time - kbd->chord.last_code_time < hold_timeout)\n				return 0;\n\n			return resolve_chord(kbd);")]),
    ("helper-full", [(K, "static int abort_chord(", "static int full_chord(struct keyboard *kbd, long time)\n{\n	const long hold_timeout = kbd->config.chord_hold_timeout;\n\n	kbd->chord.last_code_time = time;\n	if (!hold_timeout)\n		return resolve_chord(kbd);\n\n	kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;\n	schedule_timeout(kbd, time + hold_timeout);\n	return 1;\n}\n\nstatic int abort_chord("),
        (K, F, "				return full_chord(kbd, time);\n		}\n	case CHORD_PENDING_HOLD")]),
    ("helper-release", [(K, "static int handle_chord(struct keyboard *kbd,\n", "static int in_chord(const struct chord *chord, uint8_t code)\n{\n	size_t i;\n\n	for (i = 0; i < chord->sz; i++)\n		if (chord->keys[i] == code)\n			return 1;\n	return 0;\n}\n\nstatic int handle_chord(struct keyboard *kbd,\n"),
        (K, RL, "		if (!pressed && in_chord(kbd->chord.match, code))\n			return abort_chord(kbd);\n")]),
    ("slot-while", [(K, "		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {\n			struct active_chord *ac = &kbd->active_chords[i];\n			if (!ac->active) {\n				ac->active = 1;\n				ac->chord = *chord;\n				ac->layer = kbd->chord.match_layer;\n				code = KEYD_CHORD_1 + i;\n\n				break;\n			}\n		}\n",
        "		i = 0;\n		while (i < ARRAY_SIZE(kbd->active_chords) && kbd->active_chords[i].active)\n			i++;\n\n		if (i < ARRAY_SIZE(kbd->active_chords)) {\n			struct active_chord *ac = &kbd->active_chords[i];\n\n			ac->layer = kbd->chord.match_layer;\n			ac->chord = *chord;\n			ac->active = 1;\n			code = KEYD_CHORD_1 + i;\n		}\n")]),
    ("match-count", [(K, "			npressed++;\n			for", "			for"), (K, "	if (npressed == 0)\n		return 0;\n	else\n		return n == chord->sz ? 2 : 1;", "	npressed = n;\n	if (!npressed)\n		return 0;\n	if (npressed == chord->sz)\n		return 2;\n	return 1;")]),
    ("rel-helper", [(K, "static int handle_chord(struct keyboard *kbd,\n", "static int release_chord_key(struct chord *chord, uint8_t code, int *nremaining)\n{\n	size_t i;\n	int found = 0;\n\n	*nremaining = 0;\n	for (i = 0; i < chord->sz; i++) {\n		if (chord->keys[i] == code) {\n			chord->keys[i] = 0;\n			found = 1;\n		}\n		if (chord->keys[i])\n			(*nremaining)++;\n	}\n	return found;\n}\n\nstatic int handle_chord(struct keyboard *kbd,\n"),
        (K, "				size_t i;\n				int nremaining = 0;\n				int found = 0;\n\n				for (i = 0; i < ac->chord.sz; i++) {\n					if (ac->chord.keys[i] == code) {\n						ac->chord.keys[i] = 0;\n						found = 1;\n					}\n\n					if (ac->chord.keys[i])\n						nremaining++;\n				}\n", "				int nremaining;\n				int found = release_chord_key(&ac->chord, code, &nremaining);\n")]),
    ("state-first", [(K, P1, "				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;\n				kbd->chord.last_code_time = time;\n\n")]),
    ("enq-ptr", [(K, "	kbd->chord.queue[kbd->chord.queue_sz].code = code;\n	kbd->chord.queue[kbd->chord.queue_sz].pressed = pressed;\n	kbd->chord.queue[kbd->chord.queue_sz].timestamp = time;\n\n	kbd->chord.queue_sz++;", "	struct key_event *ev = &kbd->chord.queue[kbd->chord.queue_sz++];\n\n	ev->code = code;\n	ev->pressed = pressed;\n	ev->timestamp = time;")]),
    ("abort-inline", [(K, "			case 0:\n				return abort_chord(kbd);\n			case 3:", "			case 0:\n				kbd->chord.match = NULL;\n				return resolve_chord(kbd);\n			case 3:")]),
]
