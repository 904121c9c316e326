M = "src/macro.c"; D = "src/daemon.c"; K = "src/keyboard.c"; E = "src/evloop.c"
S = "schedule_timeout(kbd, kbd->pending_key.expire);"
MUT = [
    ("cut-key-event", [("src/keyboard.h", "	long timestamp;", "	int timestamp;")]),
    ("cut-event", [("src/keyd.h", "	long timestamp;", "	int timestamp;")]),
    ("cut-start", [("src/evloop.c", "		long start_time;", "		int start_time;")]),
    ("cut-last", [("src/daemon.c", "	static long last_time = 0;", "	static int last_time = 0;")]),
    ("cut-scroll", [("src/daemon.c", "uint8_t code, long timestamp)", "uint8_t code, int timestamp)")]),
    ("cut-batch", [("src/keyboard.c", "	long timeout_ts = 0;", "	int timeout_ts = 0;")]),
    ("cut-clock", [("src/evloop.c", "static long get_time_ms()", "static int get_time_ms()")]),
    ("cut-deadline", [("src/keyboard.h", "		long expire;", "		int expire;")]),
    ("cut-schedule", [("src/keyboard.c", "static void schedule_timeout(struct keyboard *kbd, long timeout)", "static void schedule_timeout(struct keyboard *kbd, int timeout)")]),
    ("to-nosched", [(K, "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n\n			" + S, "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n")]),
    ("to-cond", [(K, "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n\n			" + S, "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n			if (!kbd->active_macro)\n				" + S)]),
    ("ov-before", [(K, "			kbd->pending_key.expire = time+d->args[2].timeout;\n\n			" + S, "			" + S + "\n			kbd->pending_key.expire = time+d->args[2].timeout;\n")]),
    ("ov-later", [(K, "			kbd->pending_key.expire = time+d->args[2].timeout;\n\n			" + S, "			kbd->pending_key.expire = time+d->args[2].timeout;\n			schedule_timeout(kbd, kbd->pending_key.expire + 1);")]),
    ("macro-nosched", [(K, "			kbd->macro_timeout = time + timeout;\n			schedule_timeout(kbd, kbd->macro_timeout);", "			kbd->macro_timeout = time + timeout;")]),
    ("macro-wrong", [(K, "			kbd->macro_timeout = time + timeout;\n			schedule_timeout(kbd, kbd->macro_timeout);", "			kbd->macro_timeout = time + timeout;\n			schedule_timeout(kbd, time + kbd->macro_repeat_interval);")]),
    ("repeat-nosched", [(K, "			kbd->macro_timeout = time+kbd->macro_repeat_interval;\n			schedule_timeout(kbd, kbd->macro_timeout);", "			kbd->macro_timeout = time+kbd->macro_repeat_interval;")]),
    ("repeat-gt", [(K, "time >= kbd->macro_timeout", "time > kbd->macro_timeout")]),
    ("oneshot-gt", [(K, "time >= kbd->oneshot_timeout", "time > kbd->oneshot_timeout")]),
    ("pending-gt", [(K, "if (time >= kbd->pending_key.expire ||", "if (time > kbd->pending_key.expire ||")]),
    ("oneshot-nosched", [(K, "					schedule_timeout(kbd, kbd->oneshot_timeout);\n", "")]),
    ("oneshot-first", [(K, "					schedule_timeout(kbd, kbd->oneshot_timeout);\n", "					if (kbd->layer_state[idx].oneshot_depth == 1)\n						schedule_timeout(kbd, kbd->oneshot_timeout);\n")]),
    ("chord-inter-gt", [(K, "(time - kbd->chord.last_code_time) >= interkey_timeout", "(time - kbd->chord.last_code_time) > interkey_timeout")]),
    ("chord-hold-gt", [(K, "(time - kbd->chord.last_code_time) >= hold_timeout", "(time - kbd->chord.last_code_time) > hold_timeout")]),
    ("chord-1-nosched", [(K, "				kbd->chord.last_code_time = time;\n				schedule_timeout(kbd, time + interkey_timeout);\n				return 1;\n			default", "				kbd->chord.last_code_time = time;\n				return 1;\n			default")]),
    ("chord-2-nosched", [(K, "				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;\n				schedule_timeout(kbd, time + interkey_timeout);", "				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;")]),
    ("chord-hold-nosched", [(K, "					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;\n					schedule_timeout(kbd, time + hold_timeout);", "					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;")]),
    ("chord-left-nosched", [(K, "						schedule_timeout(kbd, time + timeleft);\n", "")]),
    ("chord-left-more", [(K, "						schedule_timeout(kbd, time + timeleft);\n", "						schedule_timeout(kbd, time + hold_timeout);\n")]),
    ("chord-last-time", [(K, "			case 2:\n				kbd->chord.last_code_time = time;\n\n				if (hold_timeout) {\n					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;\n					schedule_timeout(kbd, time + hold_timeout);", "			case 2:\n				kbd->chord.last_code_time = time;\n\n				if (hold_timeout) {\n					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;\n					schedule_timeout(kbd, time + interkey_timeout);")]),
    ("sched-drop", [(K, "	if (kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts)) {", "	if (kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts) / 2) {")]),
    ("sched-overwrite", [(K, "	if (timeout < kbd->timeouts[last])\n		kbd", "	if (timeout)\n		kbd")]),
    ("sched-dedupe", [(K, "	if (kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts)) {", "	for (i = 0; i < kbd->nr_timeouts; i++)\n		if (kbd->timeouts[i] > timeout) {\n			kbd->timeouts[i] = timeout;\n			return;\n		}\n\n	if (kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts)) {")]),
    ("calc-max", [(K, "kbd->timeouts[i] < timeout)", "kbd->timeouts[i] > timeout)")]),
    ("calc-last", [(K, "			if (!timeout || kbd->timeouts[i] < timeout)\n				timeout = kbd->timeouts[i];\n\n			kbd", "			timeout = kbd->timeouts[i];\n\n			kbd")]),
    ("calc-only-min", [(K, "				timeout = kbd->timeouts[i];\n\n			kbd->timeouts[n++] = kbd->timeouts[i];", "				kbd->timeouts[n++] = timeout = kbd->timeouts[i];")]),
    ("calc-nonr", [(K, "	kbd->nr_timeouts = n;", "	kbd->nr_timeouts = n ? 1 : 0;")]),
    ("calc-overwrite", [(K, "kbd->timeouts[n++] = kbd->timeouts[i];", "kbd->timeouts[n++] = timeout;")]),
    ("step-early0", [(K, "	if (handle_chord(kbd, code, pressed, time))\n		goto exit;", "	if (handle_chord(kbd, code, pressed, time))\n		return 0;")]),
    ("step-dup0", [(K, "			if (cache_get(kbd, code))\n				goto exit;", "			if (cache_get(kbd, code))\n				return 0;")]),
    ("batch-lost", [(K, "			timeout_ts = ev->timestamp + timeout;\n			i++;\n		}\n	}\n\n	return timeout;", "			timeout_ts = ev->timestamp + timeout;\n			i++;\n		}\n	}\n\n	return n > 1 ? 0 : timeout;")]),
    ("batch-after", [(K, "if (timeout > 0 && timeout_ts <= ev->timestamp) {", "if (timeout > 0 && timeout_ts + 10 <= ev->timestamp) {")]),
    ("batch-eager", [(K, "			timeout_ts = timeout_ts + timeout;", "			timeout_ts = ev->timestamp + timeout;")]),
    ("h-noage", [(D, "		timeout -= ev->timestamp - last_time;\n", "")]),
    ("h-nolast", [(D, "	last_time = ev->timestamp;\n\n	switch", "	if (ev->type == EV_TIMEOUT)\n		last_time = ev->timestamp;\n\n	switch")]),
    ("h-nolast2", [(D, "	last_time = ev->timestamp;\n\n	switch", "	if (!timeout)\n		last_time = ev->timestamp;\n\n	switch")]),
    ("h-key-overwrite", [(D, "				timeout = min_timeout(timeout, kbd_process_events(kbd, &kev, 1));", "				timeout = kbd_process_events(kbd, &kev, 1);")]),
    ("h-key-lost", [(D, "				timeout = min_timeout(timeout, kbd_process_events(kbd, &kev, 1));", "				kbd_process_events(kbd, &kev, 1);")]),
    ("h-clamp", [(D, "timeout < 1 ? 1 : timeout", "timeout < 0 ? 0 : timeout")]),
    ("h-min", [(D, "	if (a <= 0 || (b > 0 && b < a))", "	if (a <= 0 || b > a)")]),
    ("h-min0", [(D, "	if (a <= 0 || (b > 0 && b < a))", "	if (a <= 0 || b < a)")]),
    ("h-scroll", [(D, "							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp));", "							process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);")]),
    ("h-press-only", [(D, "	kbd_process_events(kbd, &kev, 1);\n\n	kev.pressed = 0;\n	return kbd_process_events(kbd, &kev, 1);", "	long timeout = kbd_process_events(kbd, &kev, 1);\n\n	kev.pressed = 0;\n	kbd_process_events(kbd, &kev, 1);\n	return timeout;")]),
    ("h-ret0", [(D, "	case EV_DEV_ADD:\n		manage_device(ev->dev);\n		break;", "	case EV_DEV_ADD:\n		manage_device(ev->dev);\n		return 0;")]),
    ("h-devadd-reset", [(D, "	case EV_DEV_ADD:\n		manage_device(ev->dev);\n		break;", "	case EV_DEV_ADD:\n		manage_device(ev->dev);\n		timeout = 0;\n		break;")]),
    ("h-first-kbd", [(D, "			timeout = min_timeout(timeout, kbd_process_events(ent->kbd, &kev, 1));\n		break;", "			if (ent->kbd == active_kbd)\n				timeout = min_timeout(timeout, kbd_process_events(ent->kbd, &kev, 1));\n		break;")]),
    ("h-kbd-break", [(D, "		for (ent = configs; ent; ent = ent->next)\n			timeout = min_timeout(timeout, kbd_process_events(ent->kbd, &kev, 1));\n		break;", "		for (ent = configs; ent; ent = ent->next) {\n			timeout = min_timeout(timeout, kbd_process_events(ent->kbd, &kev, 1));\n			if (timeout)\n				break;\n		}\n		break;")]),
    ("l-forever", [(E, "timeout > 0 ? timeout : -1", "timeout > 1 ? timeout : -1")]),
    ("l-noage", [(E, "			timeout -= elapsed;", "			;")]),
    ("l-strict", [(E, "elapsed >= timeout", "elapsed > timeout")]),
    ("l-start", [(E, "		start_time = get_time_ms();\n		poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? timeout : -1);\n", "		poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? timeout : -1);\n		start_time = get_time_ms();\n")]),
    ("l-fd-lost", [(E, "				ev.fd = aux_fds[i];\n\n				timeout = event_handler(&ev);", "				ev.fd = aux_fds[i];\n\n				event_handler(&ev);\n				timeout = 0;")]),
    ("l-key-lost", [(E, "						ev.dev = &device_table[i];\n\n						timeout = event_handler(&ev);\n					}", "						ev.dev = &device_table[i];\n\n						event_handler(&ev);\n					}")]),
    ("l-notimeout", [(E, "			ev.type = EV_TIMEOUT;", "			ev.type = EV_FD_ACTIVITY;")]),
    ("l-plus", [(E, "			timeout -= elapsed;", "			timeout += elapsed;")]),
    ("l-removed", [(E, "			device_table_sz = n;\n", "			device_table_sz = n;\n			timeout = 0;\n")]),
    ("l-upgate", [(E, "if (timeout > 0 && elapsed >= timeout) {", "if (timeout > 0 && elapsed >= timeout && !pfds[0].revents) {")]),
    ("l-fixed", [(E, "timeout > 0 ? timeout : -1", "timeout > 0 ? 1000 : -1")]),
]
REF = [
    ("calc-if", [(K, "			if (!timeout || kbd->timeouts[i] < timeout)\n				timeout = kbd->timeouts[i];\n\n			kbd->timeouts[n++] = kbd->timeouts[i];", "			long t = kbd->timeouts[i];\n\n			kbd->timeouts[n] = t;\n			n++;\n			if (timeout == 0)\n				timeout = t;\n			else if (timeout > t)\n				timeout = t;")]),
    ("calc-skip", [(K, "		if (kbd->timeouts[i] > time) {\n			if (!timeout || kbd->timeouts[i] < timeout)\n				timeout = kbd->timeouts[i];\n\n			kbd->timeouts[n++] = kbd->timeouts[i];\n		}", "	{\n		if (kbd->timeouts[i] <= time)\n			continue;\n			if (!timeout || kbd->timeouts[i] <= timeout)\n				timeout = kbd->timeouts[i];\n\n			kbd->timeouts[n++] = kbd->timeouts[i];\n		}")]),
    ("sched-local", [(K, "			kbd->pending_key.expire = time + d->args[1].timeout;\n", "			long when = d->args[1].timeout + time;\n			kbd->pending_key.expire = when;\n"), (K, "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n\n			" + S, "			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;\n\n			schedule_timeout(kbd, when);")]),
    ("macro-order", [(K, "			kbd->macro_timeout = time + timeout;\n			schedule_timeout(kbd, kbd->macro_timeout);", "			schedule_timeout(kbd, time + timeout);\n			kbd->macro_timeout = time + timeout;")]),
    ("chord-sub", [(K, "(time - kbd->chord.last_code_time) >= interkey_timeout", "time >= kbd->chord.last_code_time + interkey_timeout")]),
    ("chord-lt", [(K, "			if ((time - kbd->chord.last_code_time) >= hold_timeout)\n				return resolve_chord(kbd);\n\n			return 0;", "			if (time - kbd->chord.last_code_time < hold_timeout)\n				return 0;\n\n			return resolve_chord(kbd);")]),
    ("chord-inter-helper", [(K, "static int handle_chord(", "static void await(struct keyboard *kbd, int state, long time, long d)\n{\n	kbd->chord.state = state;\n	kbd->chord.last_code_time = time;\n	schedule_timeout(kbd, d + time);\n}\n\nstatic int handle_chord("), (K, "				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;\n				kbd->chord.last_code_time = time;\n				schedule_timeout(kbd, time + interkey_timeout);\n", "				await(kbd, CHORD_PENDING_DISAMBIGUATION, time, interkey_timeout);\n")]),
    ("h-while", [(D, "		for (ent = configs; ent; ent = ent->next)\n			timeout = min_timeout(timeout, kbd_process_events(ent->kbd, &kev, 1));\n		break;", "		ent = configs;\n		while (ent != NULL) {\n			long t = kbd_process_events(ent->kbd, &kev, 1);\n			timeout = min_timeout(t, timeout);\n			ent = ent->next;\n		}\n		break;")]),
    ("h-if", [(D, "		timeout = timeout < 1 ? 1 : timeout;", "		if (timeout <= 0)\n			timeout = 1;")]),
    ("h-age", [(D, "		timeout -= ev->timestamp - last_time;\n", "		int elapsed = ev->timestamp - last_time;\n\n		timeout = timeout - elapsed;\n")]),
    ("h-min-flat", [(D, "	if (a <= 0 || (b > 0 && b < a))\n		return b;\n\n	return a;", "	if (a <= 0)\n		return b;\n	if (b <= 0)\n		return a;\n\n	return a < b ? a : b;")]),
    ("l-if", [(E, "		poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? timeout : -1);", "		int wait = -1;\n		if (timeout > 0)\n			wait = timeout;\n		poll(pfds, device_table_sz+nr_aux_fds+1, wait);")]),
    ("l-elapsed", [(E, "		elapsed = ev.timestamp - start_time;\n", "		long now = ev.timestamp;\n		elapsed = now - start_time;\n")]),
    ("l-nested", [(E, "		if (timeout > 0 && elapsed >= timeout) {", "		if (timeout > 0 && !(elapsed < timeout)) {")]),
    ("l-dispatch", [(E, "int evloop(int (*event_handler) (struct event *ev))\n{", "static int fire(int (*event_handler) (struct event *ev), struct event *ev)\n{\n	ev->type = EV_TIMEOUT;\n	ev->dev = NULL;\n	ev->devev = NULL;\n	return event_handler(ev);\n}\n\nint evloop(int (*event_handler) (struct event *ev))\n{"), (E, "			ev.type = EV_TIMEOUT;\n			ev.dev = NULL;\n			ev.devev = NULL;\n			timeout = event_handler(&ev);\n", "			timeout = fire(event_handler, &ev);\n")]),
]
