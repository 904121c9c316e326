K = "src/keyboard.c"
B = "				d->op == OP_OVERLOAD_TIMEOUT_TAP ?\n					PK_UNINTERRUPTIBLE_TAP_ACTION2 :\n					PK_UNINTERRUPTIBLE;"
I = "			if (((time - kbd->last_simple_key_time) >= timeout))"
TT = "((time - kbd->overload_start_time) < kbd->config.overload_tap_timeout)"
A1 = "	} else if (code && pressed && kbd->pending_key.behaviour == PK_INTERRUPT_ACTION1) {"
U = "	} else if (kbd->pending_key.behaviour == PK_UNINTERRUPTIBLE_TAP_ACTION2 && !pressed) {"
Q = "			if (kbd->pending_key.queue[i].code == code) {\n				action = kbd->pending_key.action2;"
X = "	if (time >= kbd->pending_key.expire ||"
T1 = "			kbd->pending_key.action1 = kbd->config.descriptors[d->args[0].idx];\n			kbd->pending_key.action2 = kbd->config.descriptors[d->args[2].idx];\n"
E1 = "			kbd->pending_key.expire = time+d->args[2].timeout;"
E2 = "			kbd->pending_key.expire = time + d->args[1].timeout;"
S = "		if (!mods || mods == MOD_SHIFT)\n			kbd->last_simple_key_time = time;\n"
H = "	if (time >= kbd->pending_key.expire ||\n	    kbd->pending_key.queue_sz >= ARRAY_SIZE(kbd->pending_key.queue)) {\n		action = kbd->pending_key.action2;\n	} else if (code == kbd->pending_key.code) {"
L = "	if (pressed)\n		kbd->last_pressed_code = code;"
MUT = [
    ("beh-swap", [(K, B, B.replace("d->op ==", "d->op !="))]),
    ("beh-one", [(K, B, "				PK_UNINTERRUPTIBLE;")]),
    ("beh-both", [(K, B, "				PK_UNINTERRUPTIBLE_TAP_ACTION2;")]),
    ("timeout-beh", [(K, "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n\n			schedule_timeout", "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION2;\n\n			schedule_timeout")]),
    ("timeout-uninterruptible", [(K, "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n\n			schedule_timeout", "			kbd->pending_key.behaviour = PK_UNINTERRUPTIBLE;\n\n			schedule_timeout")]),
    ("timeout-swap", [(K, T1, T1.replace("args[0]", "args[9]").replace("args[2]", "args[0]").replace("args[9]", "args[2]"))]),
    ("timeout-same", [(K, T1, T1.replace("args[2]", "args[0]"))]),
    ("expire-later", [(K, E1, E1.replace(";", " + 1;"))]),
    ("expire-arg", [(K, E2, E2.replace("args[1]", "args[0]"))]),
    ("expire-int", [(K, E2, E2.replace("time +", "(int)time +"))]),
    ("hold-layer", [(K, "			kbd->pending_key.action2.args[0].idx = layer;", "			kbd->pending_key.action2.args[0].idx = d->args[1].idx;")]),
    ("hold-op", [(K, "			kbd->pending_key.action2.op = OP_LAYER;", "			kbd->pending_key.action2.op = OP_TOGGLE;")]),
    ("tap-arg", [(K, "			kbd->pending_key.action1 = *action;\n			kbd->pending_key.action2.op", "			kbd->pending_key.action1 = *d;\n			kbd->pending_key.action2.op")]),
    ("idle-strict", [(K, I, I.replace(">=", ">"))]),
    ("idle-rev", [(K, I, I.replace(">=", "<"))]),
    ("idle-int", [(K, I, I.replace("time - kbd->last_simple_key_time", "(int)(time - kbd->last_simple_key_time)"))]),
    ("idle-never", [(K, I, "			if (1)")]),
    ("tap-le", [(K, TT, TT.replace("<", "<="))]),
    ("tap-gt", [(K, TT, TT.replace("<", ">"))]),
    ("tap-no-zero", [(K, "			    (!kbd->config.overload_tap_timeout ||\n			     " + TT + ")", "			    " + TT)]),
    ("tap-ignored", [(K, "			    (!kbd->config.overload_tap_timeout ||\n			     " + TT + ")", "			    1")]),
    ("tap-int", [(K, TT, TT.replace("(time -", "(int)(time -"))]),
    ("tap-any", [(K, "			if (kbd->last_pressed_code == code &&\n			    (!kbd", "			if ((!kbd")]),
    ("tap-instead", [(K, "			if (kbd->last_pressed_code == code &&\n			    (!kbd->config.overload_tap_timeout ||", "			if ((kbd->last_pressed_code == code ||\n			    !kbd->config.overload_tap_timeout) && (0 ||")]),
    ("start-none", [(K, "			kbd->overload_start_time = time;\n", "")]),
    ("start-cond", [(K, "			kbd->overload_start_time = time;\n", "			if (!kbd->overload_start_time)\n				kbd->overload_start_time = time;\n")]),
    ("own-release-hold", [(K, "			action = kbd->pending_key.action1;\n		}\n	} else if", "			action = kbd->pending_key.queue_sz > 1 ? kbd->pending_key.action2 : kbd->pending_key.action1;\n		}\n	} else if")]),
    ("interrupt-hold", [(K, A1 + "\n		action = kbd->pending_key.action1;", A1 + "\n		action = kbd->pending_key.action2;")]),
    ("interrupt-time", [(K, A1, A1.replace("code && pressed && ", ""))]),
    ("tap2-any", [(K, U, U.replace(" && !pressed", ""))]),
    ("tap2-tap", [(K, Q, Q.replace("action2", "action1"))]),
    ("tap2-first", [(K, U + "\n		size_t i;\n\n		for (i = 0; i < kbd->pending_key.queue_sz; i++)", U + "\n		size_t i;\n\n		for (i = 0; i < 1; i++)")]),
    ("exp-strict", [(K, X, X.replace(">=", ">"))]),
    ("exp-int", [(K, X, X.replace("time >=", "(int)time >= (int)"))]),
    ("exp-tap", [(K, H, H.replace("action2", "action1"))]),
    ("order", [(K, H, H.replace("	if (time >= kbd->pending_key.expire ||", "	if ((time >= kbd->pending_key.expire && code != kbd->pending_key.code) ||"))]),
    ("found", [(K, "			if (!found && code != kbd->pending_key.code)\n				return 0;\n", "")]),
    ("found-rev", [(K, "				if (kbd->pending_key.queue[i].code == code)\n					found = 1;", "				if (kbd->pending_key.queue[i].code == code && kbd->pending_key.behaviour != PK_UNINTERRUPTIBLE_TAP_ACTION2)\n					found = 1;")]),
    ("act-code", [(K, "		process_descriptor(kbd, code, &action, dl, 1, time);\n\n		/* Flush", "		process_descriptor(kbd, queue[0].code, &action, dl, 1, time);\n\n		/* Flush")]),
    ("sym-never", [(K, S, "")]),
    ("sym-press-rev", [(K, S, S.replace("if (!mods ||", "if (!pressed && (!mods ||").replace("MOD_SHIFT)", "MOD_SHIFT))"))]),
    ("sym-first", [(K, S, S.replace("!mods ||", "(!mods && !kbd->last_simple_key_time) ||"))]),
    ("lastkey-never", [(K, L, "")]),
    ("lastkey-release", [(K, L, "	kbd->last_pressed_code = code;")]),
]
REF = [
    ("beh-if", [(K, "			kbd->pending_key.behaviour =\n" + B, "			if (d->op == OP_OVERLOAD_TIMEOUT)\n				kbd->pending_key.behaviour = PK_UNINTERRUPTIBLE;\n			else\n				kbd->pending_key.behaviour = PK_UNINTERRUPTIBLE_TAP_ACTION2;")]),
    ("set-after", [(K, E2 + "\n", ""), (K, "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n\n			schedule_timeout", "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n" + E2 + "\n\n			schedule_timeout")]),
    ("local-pk", [(K, "	case OP_TIMEOUT:\n		if (pressed) {\n" + T1, "	case OP_TIMEOUT:\n		if (pressed) {\n			const struct descriptor *tap = &kbd->config.descriptors[d->args[0].idx];\n			const struct descriptor *hold = &kbd->config.descriptors[d->args[2].idx];\n\n			kbd->pending_key.action1 = *tap;\n			kbd->pending_key.action2 = *hold;\n")]),
    ("idle-neg", [(K, I + "\n				action = &kbd->config.descriptors[d->args[1].idx];\n			else\n				action = &kbd->config.descriptors[d->args[0].idx];", "			if (time - kbd->last_simple_key_time < timeout)\n				action = &kbd->config.descriptors[d->args[0].idx];\n			else\n				action = &kbd->config.descriptors[d->args[1].idx];")]),
    ("idle-tern", [(K, I + "\n				action = &kbd->config.descriptors[d->args[1].idx];\n			else\n				action = &kbd->config.descriptors[d->args[0].idx];", "			int idle = time - kbd->last_simple_key_time >= timeout;\n\n			action = &kbd->config.descriptors[idle ? d->args[1].idx : d->args[0].idx];")]),
    ("tap-local", [(K, "			if (kbd->last_pressed_code == code &&\n			    (!kbd->config.overload_tap_timeout ||\n			     " + TT + ")) {", "			long held = time - kbd->overload_start_time;\n			int in_time = !kbd->config.overload_tap_timeout || held < kbd->config.overload_tap_timeout;\n\n			if (in_time && kbd->last_pressed_code == code) {")]),
    ("helper-tap", [(K, "static long process_descriptor(struct keyboard *kbd, uint8_t code,\n			       const struct descriptor *d, int dl,\n", "static int is_tap(struct keyboard *kbd, uint8_t code, long time)\n{\n	if (kbd->last_pressed_code != code)\n		return 0;\n	if (!kbd->config.overload_tap_timeout)\n		return 1;\n	return time - kbd->overload_start_time < kbd->config.overload_tap_timeout;\n}\n\nstatic long process_descriptor(struct keyboard *kbd, uint8_t code,\n			       const struct descriptor *d, int dl,\n"),
        (K, "			if (kbd->last_pressed_code == code &&\n			    (!kbd->config.overload_tap_timeout ||\n			     " + TT + ")) {", "			if (is_tap(kbd, code, time)) {")]),
    ("helper-queued", [(K, "int handle_pending_key(", "static int is_queued(struct keyboard *kbd, uint8_t code)\n{\n	size_t i;\n\n	for (i = 0; i < kbd->pending_key.queue_sz; i++)\n		if (kbd->pending_key.queue[i].code == code)\n			return 1;\n	return 0;\n}\n\nint handle_pending_key("),
        (K, "			size_t i;\n			int found = 0;\n\n			for (i = 0; i < kbd->pending_key.queue_sz; i++)\n				if (kbd->pending_key.queue[i].code == code)\n					found = 1;\n", "			int found = is_queued(kbd, code);\n")]),
    ("while", [(K, U + "\n		size_t i;\n\n		for (i = 0; i < kbd->pending_key.queue_sz; i++)\n" + Q + "\n				break;\n			}\n", U + "\n		size_t i = kbd->pending_key.queue_sz;\n\n		while (i--) {\n			if (kbd->pending_key.queue[i].code != code)\n				continue;\n			action = kbd->pending_key.action2;\n			break;\n		}\n")]),
    ("switch", [(K, "	} else if (code && pressed && kbd->pending_key.behaviour == PK_INTERRUPT_ACTION1) {\n		action = kbd->pending_key.action1;\n	} else if (code && pressed && kbd->pending_key.behaviour == PK_INTERRUPT_ACTION2) {\n		action = kbd->pending_key.action2;\n	}", "	} else if (code && pressed) {\n		switch (kbd->pending_key.behaviour) {\n		case PK_INTERRUPT_ACTION1:\n			action = kbd->pending_key.action1;\n			break;\n		case PK_INTERRUPT_ACTION2:\n			action = kbd->pending_key.action2;\n			break;\n		default:\n			break;\n		}\n	}")]),
    ("flags", [(K, H, H.replace("	if (time >=", "	int up = time >=", 1).replace(" ||\n	    kbd->pending_key.queue_sz", ";\n	int full = kbd->pending_key.queue_sz").replace("queue)) {", "queue);\n\n	if (up || full) {"))]),
    ("sym-early", [(K, S, ""), (K, "		mods = d->args[1].mods;\n", "		mods = d->args[1].mods;\n\n		if (mods == MOD_SHIFT || mods == 0)\n			kbd->last_simple_key_time = time;\n")]),
    ("decide-out", [(K, "int handle_pending_key(", "static void resolve_pending(struct keyboard *kbd, struct descriptor action, long time)\n{\n	struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)];\n	size_t queue_sz = kbd->pending_key.queue_sz;\n	uint8_t code = kbd->pending_key.code;\n	int dl = kbd->pending_key.dl;\n\n	memcpy(queue, kbd->pending_key.queue, sizeof kbd->pending_key.queue);\n	kbd->pending_key.code = 0;\n	kbd->pending_key.queue_sz = 0;\n	kbd->pending_key.tap_expiry = 0;\n	cache_set(kbd, code, &(struct cache_entry) {\n		.d = action,\n		.dl = dl,\n		.layer = 0,\n	});\n	process_descriptor(kbd, code, &action, dl, 1, time);\n	kbd_process_events(kbd, queue, queue_sz);\n}\n\nint handle_pending_key("),
        (K, "		/* Create a copy of the queue on the stack to\n		   allow for recursive pending key processing. */\n		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)];\n		size_t queue_sz = kbd->pending_key.queue_sz;\n\n		uint8_t code = kbd->pending_key.code;\n		int dl = kbd->pending_key.dl;\n\n		memcpy(queue, kbd->pending_key.queue, sizeof kbd->pending_key.queue);\n\n		kbd->pending_key.code = 0;\n		kbd->pending_key.queue_sz = 0;\n		kbd->pending_key.tap_expiry = 0;\n\n		cache_set(kbd, code, &(struct cache_entry) {\n			.d = action,\n			.dl = dl,\n			.layer = 0,\n		});\n		process_descriptor(kbd, code, &action, dl, 1, time);\n\n		/* Flush queued events */\n		kbd_process_events(kbd, queue, queue_sz);\n", "		resolve_pending(kbd, action, time);\n")]),
]
