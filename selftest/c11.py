K = "src/keyboard.c"
Q = "		ev->code = code;\n		ev->pressed = pressed;\n		ev->timestamp = time;\n\n		kbd->pending_key.queue_sz++;\n"
MUT = [
    ("pend-notime", [(K, "		ev->timestamp = time;\n\n", "\n")]),
    ("pend-pressed", [(K, "		ev->pressed = pressed;\n		ev->timestamp", "		ev->pressed = 1;\n		ev->timestamp")]),
    ("pend-nocount", [(K, "		kbd->pending_key.queue_sz++;\n", "		if (pressed)\n			kbd->pending_key.queue_sz++;\n")]),
    ("pend-noappend-up", [(K, "	if (code) {\n		struct key_event *ev;", "	if (code && pressed) {\n		struct key_event *ev;")]),
    ("pend-up-bypass", [(K, "			if (!found && code != kbd->pending_key.code)", "			if (code != kbd->pending_key.code)")]),
    ("pend-up-bypass2", [(K, "			for (i = 0; i < kbd->pending_key.queue_sz; i++)\n				if (kbd->pending_key.queue[i].code == code)\n					found = 1;", "			for (i = 1; i < kbd->pending_key.queue_sz; i++)\n				if (kbd->pending_key.queue[i].code == code)\n					found = 1;")]),
    ("pend-up-swallow", [(K, "			if (!found && code != kbd->pending_key.code)\n				return 0;", "			if (!found && code != kbd->pending_key.code)\n				return 1;")]),
    ("pend-all-bypass", [(K, "	if (code && pressed && cache_get(kbd, code))\n		return 0;", "	if (code && pressed)\n		return 0;")]),
    ("pend-nocopy", [(K, "		kbd_process_events(kbd, queue, queue_sz);", "		kbd_process_events(kbd, kbd->pending_key.queue, queue_sz);")]),
    ("pend-copy-bytes", [(K, "memcpy(queue, kbd->pending_key.queue, sizeof kbd->pending_key.queue);", "memcpy(queue, kbd->pending_key.queue + 1, sizeof kbd->pending_key.queue - sizeof queue[0]);")]),
    ("pend-copy-late", [(K, "		memcpy(queue, kbd->pending_key.queue, sizeof kbd->pending_key.queue);\n", ""), (K, "		/* Flush queued events */\n", "		memcpy(queue, kbd->pending_key.queue, sizeof kbd->pending_key.queue);\n")]),
    ("pend-clear-late", [(K, "		kbd->pending_key.code = 0;\n		kbd->pending_key.queue_sz = 0;\n		kbd->pending_key.tap_expiry = 0;\n", "		kbd->pending_key.queue_sz = 0;\n		kbd->pending_key.tap_expiry = 0;\n"), (K, "		/* Flush queued events */\n", "		kbd->pending_key.code = 0;\n")]),
    ("pend-sz-late", [(K, "		kbd->pending_key.code = 0;\n		kbd->pending_key.queue_sz = 0;\n", "		kbd->pending_key.code = 0;\n"), (K, "		/* Flush queued events */\n", "		kbd->pending_key.queue_sz = 0;\n")]),
    ("pend-sz-never", [(K, "		kbd->pending_key.code = 0;\n		kbd->pending_key.queue_sz = 0;\n", "		kbd->pending_key.code = 0;\n")]),
    ("pend-order", [(K, "		process_descriptor(kbd, code, &action, dl, 1, time);\n\n		/* Flush queued events */\n		kbd_process_events(kbd, queue, queue_sz);", "		kbd_process_events(kbd, queue, queue_sz);\n		process_descriptor(kbd, code, &action, dl, 1, time);")]),
    ("pend-noreplay-tap", [(K, "		kbd_process_events(kbd, queue, queue_sz);\n	}", "		if (action.op != OP_KEYSEQUENCE)\n			kbd_process_events(kbd, queue, queue_sz);\n	}")]),
    ("pend-one-less", [(K, "		kbd_process_events(kbd, queue, queue_sz);\n	}", "		kbd_process_events(kbd, queue, queue_sz - 1);\n	}")]),
    ("pend-size-before", [(K, "		size_t queue_sz = kbd->pending_key.queue_sz;\n\n		uint8_t code = kbd->pending_key.code;\n		int dl = kbd->pending_key.dl;\n", "		size_t queue_sz;\n\n		uint8_t code = kbd->pending_key.code;\n		int dl = kbd->pending_key.dl;\n"), (K, "		kbd->pending_key.tap_expiry = 0;\n", "		kbd->pending_key.tap_expiry = 0;\n		queue_sz = kbd->pending_key.queue_sz;\n")]),
    ("pend-return0", [(K, "		kbd_process_events(kbd, queue, queue_sz);\n	}\n\n	return 1;", "		kbd_process_events(kbd, queue, queue_sz);\n	}\n\n	return pressed;")]),
    ("chord-garbled", [(K, "	kbd->chord.queue[kbd->chord.queue_sz].pressed = pressed;", "	kbd->chord.queue[kbd->chord.queue_sz].pressed = 1;")]),
    ("chord-time", [(K, "	kbd->chord.queue[kbd->chord.queue_sz].timestamp = time;", "	kbd->chord.queue[kbd->chord.queue_sz].timestamp = kbd->chord.last_code_time;")]),
    ("chord-drop-any", [(K, "			if (kbd->chord.queue[i-1].pressed == pressed)\n				return;\n			break;", "			return;")]),
    ("chord-drop-old", [(K, "				return;\n			break;\n		}", "				return;\n		}")]),
    ("chord-hold-noqueue", [(K, "			return 0;\n		}\n\n		enqueue_chord_event(kbd, code, pressed, time);\n\n		if (kbd->chord.queue_sz >= ARRAY_SIZE(kbd->chord.queue))\n			return abort_chord(kbd);\n\n		if (!pressed) {", "			return 0;\n		}\n\n		if (kbd->chord.queue_sz >= ARRAY_SIZE(kbd->chord.queue))\n			return abort_chord(kbd);\n\n		if (!pressed) {\n			enqueue_chord_event(kbd, code, pressed, time);")]),
    ("chord-hold-ret0", [(K, "					return abort_chord(kbd);\n		}\n\n		return 1;", "					return abort_chord(kbd);\n		}\n\n		return 0;")]),
    ("chord-inact-ret1", [(K, "			case 0:\n				return 0;\n			case 3:", "			case 0:\n				return 1;\n			case 3:")]),
    ("chord-case1-ret0", [(K, "				kbd->chord.last_code_time = time;\n				schedule_timeout(kbd, time + interkey_timeout);\n				return 1;\n			default", "				kbd->chord.last_code_time = time;\n				schedule_timeout(kbd, time + interkey_timeout);\n				return 0;\n			default")]),
    ("chord-abort-noreplay", [(K, "	kbd->chord.match = NULL;\n	return resolve_chord(kbd);", "	kbd->chord.match = NULL;\n	kbd->chord.state = CHORD_INACTIVE;\n	return 1;")]),
    ("chord-offset-full", [(K, "			queue_offset = chord->sz;", "			queue_offset = kbd->chord.queue_sz;")]),
    ("chord-offset-noslot", [(K, "		if (code) {\n			queue_offset = chord->sz;\n			process_event(kbd, code, 1, kbd->chord.last_code_time);\n		}", "		queue_offset = chord->sz;\n		if (code)\n			process_event(kbd, code, 1, kbd->chord.last_code_time);\n")]),
    ("chord-offset-0", [(K, "			queue_offset = chord->sz;\n", "")]),
    ("chord-number", [(K, "			   kbd->chord.queue_sz - queue_offset);", "			   kbd->chord.queue_sz);")]),
    ("chord-stuck", [(K, "			   kbd->chord.queue_sz - queue_offset);\n	kbd->chord.state = CHORD_INACTIVE;", "			   kbd->chord.queue_sz - queue_offset);\n	if (queue_offset)\n		kbd->chord.state = CHORD_INACTIVE;")]),
    ("chord-early-inactive", [(K, "	kbd_process_events(kbd,\n			   kbd->chord.queue + queue_offset,\n			   kbd->chord.queue_sz - queue_offset);\n	kbd->chord.state = CHORD_INACTIVE;", "	kbd->chord.state = CHORD_INACTIVE;\n	kbd_process_events(kbd,\n			   kbd->chord.queue + queue_offset,\n			   kbd->chord.queue_sz - queue_offset);")]),
    ("chord-disambig-case0", [(K, "			case 0:\n				return abort_chord(kbd);", "			case 0:\n				kbd->chord.state = CHORD_INACTIVE;\n				return 0;")]),
    ("chord-timeout-noreplay", [(K, "				} else {\n					return abort_chord(kbd);\n				}\n\n				return 1;", "				} else {\n					kbd->chord.state = CHORD_INACTIVE;\n				}\n\n				return 1;")]),
    ("chord-resolving-queue", [(K, "	case CHORD_RESOLVING:\n		return 0;", "	case CHORD_RESOLVING:\n		if (!pressed)\n			enqueue_chord_event(kbd, code, pressed, time);\n		return 0;")]),
    ("chord-release-lost", [(K, "					if (nremaining == 0) {\n						ac->active = 0;\n						process_event(kbd, chord_code, 0, time);\n					}", "					if (nremaining == 0) {\n						ac->active = 0;\n						if (kbd->chord.state != CHORD_RESOLVING)\n							process_event(kbd, chord_code, 0, time);\n					}")]),
    ("chord-release-any", [(K, "				if (found) {\n					if (nremaining == 0) {", "				if (found || !nremaining) {\n					if (nremaining == 0) {")]),
    ("chord-press-lost", [(K, "			queue_offset = chord->sz;\n			process_event(kbd, code, 1, kbd->chord.last_code_time);", "			queue_offset = chord->sz;\n			if (!kbd->pending_key.code)\n				process_event(kbd, code, 1, kbd->chord.last_code_time);")]),
    ("match-ge", [(K, "		return n == chord->sz ? 2 : 1;", "		return n >= chord->sz - 1 ? 2 : 1;")]),
    ("match-anyfound", [(K, "			if (!found)\n				return 0;\n			else\n				n++;", "			n++;")]),
    ("match-first", [(K, "				if (chord->keys[j] == events[i].code)\n					found = 1;\n\n			if", "				if (chord->keys[j] == events[0].code)\n					found = 1;\n\n			if")]),
    ("match-sub", [(K, "for (j = 0; j < chord->sz; j++)\n				if (chord->keys[j] == events[i].code)", "for (j = 0; j < chord->sz - 1; j++)\n				if (chord->keys[j] == events[i].code)")]),
    ("match-release", [(K, "	if (npressed == 0)\n		return 0;\n	else", "")]),
    ("pick-partial", [(K, "			if (ret == 2 &&\n				maxts", "			if (ret &&\n				maxts")]),
    ("batch-skip", [(K, "			timeout_ts = timeout_ts + timeout;", "			timeout_ts = timeout_ts + timeout;\n			i++;")]),
    ("batch-noinc", [(K, "			timeout_ts = ev->timestamp + timeout;\n			i++;", "			timeout_ts = ev->timestamp + timeout;\n			i += 1 + !ev->code;\n			if (n > 2 && i == n - 1 && !ev->pressed)\n				break;")]),
    ("batch-pressed", [(K, "process_event(kbd, ev->code, ev->pressed, ev->timestamp);", "process_event(kbd, ev->code, events[0].pressed, ev->timestamp);")]),
    ("clear-pending", [(K, "	kbd->active_macro = NULL;\n\n	reset_keystate(kbd);", "	kbd->active_macro = NULL;\n	kbd->pending_key.code = 0;\n\n	reset_keystate(kbd);")]),
    ("clear-queue", [(K, "	kbd->active_macro = NULL;\n\n	reset_keystate(kbd);", "	kbd->active_macro = NULL;\n	kbd->pending_key.queue_sz = 0;\n\n	reset_keystate(kbd);")]),
    ("eval-chord", [(K, "	if (!strcmp(exp, \"reset\")) {", "	if (!strcmp(exp, \"reset\")) {\n		kbd->chord.state = CHORD_INACTIVE;")]),
    ("step-chord-noev", [(K, "	if (handle_chord(kbd, code, pressed, time))\n		goto exit;", "	if (kbd->chord.state != CHORD_RESOLVING && kbd->active_macro && !pressed)\n		goto exit;\n	if (handle_chord(kbd, code, pressed, time))\n		goto exit;")]),
    ("release-pending", [(K, "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n\n			schedule_timeout(kbd, kbd->pending_key.expire);\n		}", "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n\n			schedule_timeout(kbd, kbd->pending_key.expire);\n		} else if (kbd->pending_key.code == code)\n			kbd->pending_key.code = 0;")]),
]
REF = [
    ("pend-found-helper", [(K, "int handle_pending_key(", "static int is_queued(struct keyboard *kbd, uint8_t code)\n{\n	size_t i;\n	for (i = 0; i < kbd->pending_key.queue_sz; i++)\n		if (kbd->pending_key.queue[i].code == code)\n			return 1;\n	return 0;\n}\n\nint handle_pending_key("), (K, "			size_t i;\n			int found = 0;\n\n			for (i = 0; i < kbd->pending_key.queue_sz; i++)\n				if (kbd->pending_key.queue[i].code == code)\n					found = 1;\n", "			int found = is_queued(kbd, code);\n")]),
    ("pend-append-post", [(K, "		ev = &kbd->pending_key.queue[kbd->pending_key.queue_sz];\n", "		ev = &kbd->pending_key.queue[kbd->pending_key.queue_sz++];\n"), (K, "		ev->timestamp = time;\n\n		kbd->pending_key.queue_sz++;\n", "		ev->timestamp = time;\n")]),
    ("pend-append-lit", [(K, Q, "		*ev = (struct key_event) { .code = code, .pressed = pressed, .timestamp = time };\n		kbd->pending_key.queue_sz++;\n")]),
    ("pend-copy-sz", [(K, "memcpy(queue, kbd->pending_key.queue, sizeof kbd->pending_key.queue);", "memcpy(queue, kbd->pending_key.queue, queue_sz * sizeof queue[0]);")]),
    ("chord-append-ptr", [(K, "	kbd->chord.queue[kbd->chord.queue_sz].code = code;\n	kbd->chord.queue[kbd->chord.queue_sz].pressed = pressed;\n	kbd->chord.queue[kbd->chord.queue_sz].timestamp = time;\n\n	kbd->chord.queue_sz++;", "	struct key_event *ev = &kbd->chord.queue[kbd->chord.queue_sz++];\n\n	ev->code = code;\n	ev->pressed = pressed;\n	ev->timestamp = time;")]),
    ("chord-replay-local", [(K, "	kbd_process_events(kbd,\n			   kbd->chord.queue + queue_offset,\n			   kbd->chord.queue_sz - queue_offset);", "	size_t n = kbd->chord.queue_sz - queue_offset;\n	struct key_event *rest = &kbd->chord.queue[queue_offset];\n\n	kbd_process_events(kbd, rest, n);")]),
    ("chord-slot-helper", [(K, "static int resolve_chord(struct keyboard *kbd)\n{", "static uint8_t claim_chord(struct keyboard *kbd, const struct chord *chord)\n{\n	size_t i;\n	for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {\n		struct active_chord *ac = &kbd->active_chords[i];\n		if (ac->active)\n			continue;\n		ac->active = 1;\n		ac->chord = *chord;\n		ac->layer = kbd->chord.match_layer;\n		return KEYD_CHORD_1 + i;\n	}\n	return 0;\n}\n\nstatic int resolve_chord(struct keyboard *kbd)\n{"), (K, "		size_t i;\n		uint8_t code = 0;\n\n		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {\n			struct active_chord *ac = &kbd->active_chords[i];\n			if (!ac->active) {\n				ac->active = 1;\n				ac->chord = *chord;\n				ac->layer = kbd->chord.match_layer;\n				code = KEYD_CHORD_1 + i;\n\n				break;\n			}\n		}\n", "		uint8_t code = claim_chord(kbd, chord);\n")]),
    ("match-early", [(K, "	if (npressed == 0)\n		return 0;\n	else\n		return n == chord->sz ? 2 : 1;", "	if (!npressed)\n		return 0;\n	if (n == chord->sz)\n		return 2;\n	return 1;")]),
    ("match-helper", [(K, "static int chord_event_match(", "static int chord_has(struct chord *chord, uint8_t code)\n{\n	size_t j;\n	for (j = 0; j < chord->sz; j++)\n		if (chord->keys[j] == code)\n			return 1;\n	return 0;\n}\n\nstatic int chord_event_match("), (K, "	size_t i, j;\n	size_t n = 0;\n	size_t npressed = 0;", "	size_t i;\n	size_t n = 0;\n	size_t npressed = 0;"), (K, "			int found = 0;\n\n			npressed++;\n			for (j = 0; j < chord->sz; j++)\n				if (chord->keys[j] == events[i].code)\n					found = 1;\n\n			if (!found)", "			npressed++;\n			if (!chord_has(chord, events[i].code))")]),
    ("batch-helper", [(K, "			i++;\n		}\n	}\n\n	return timeout;", "			i = i + 1;\n		}\n	}\n\n	return timeout;")]),
]
