"""Edits that change no behaviour: every check must stay quiet on each of them."""
K, D, C, M, V, E, I, S, N, U = ("src/keyboard.c", "src/daemon.c", "src/config.c", "src/macro.c", "src/device.c", "src/evloop.c",
                                "src/ipc.c", "src/string.c", "src/ini.c", "src/vkbd/uinput.c")
REF = [
 ("cache-get-while", [(K, """	size_t i;

	for (i = 0; i < CACHE_SIZE; i++)
		if (kbd->cache[i].code == code)
			return &kbd->cache[i];

	return NULL;""", """	struct cache_entry *ent = kbd->cache;
	struct cache_entry *end = kbd->cache + CACHE_SIZE;

	while (ent != end) {
		if (ent->code == code)
			return ent;
		ent++;
	}

	return NULL;""")]),
 ("cache-set-else", [(K, """	if (ent == NULL) {
		kbd->cache[slot].code = 0;
	} else {
		kbd->cache[slot] = *ent;
		kbd->cache[slot].code = code;
	}

	return 0;""", """	struct cache_entry *dst = &kbd->cache[slot];

	if (ent) {
		*dst = *ent;
		dst->code = code;
		return 0;
	}

	dst->code = 0;
	return 0;""")]),
 ("send-key-early", [(K, """	if (kbd->keystate[code] != pressed) {
		kbd->keystate[code] = pressed;
		kbd->output.send_key(code, pressed);
	}
}

static void clear_mod""", """	if (kbd->keystate[code] == pressed)
		return;

	kbd->output.send_key(code, pressed);
	kbd->keystate[code] = pressed;
}

static void clear_mod""")]),
 ("reset-keystate-while", [(K, """	for (i = 0; i < 256; i++) {
		if (kbd->keystate[i]) {
			kbd->output.send_key(i, 0);
			kbd->keystate[i] = 0;
		}
	}
""", """	i = 0;
	while (i < ARRAY_SIZE(kbd->keystate)) {
		uint8_t down = kbd->keystate[i];

		if (!down) {
			i++;
			continue;
		}

		kbd->keystate[i] = 0;
		kbd->output.send_key((uint8_t)i, 0);
		i++;
	}
""")]),
 ("clear-oneshot-helper", [(K, """static void clear_oneshot(struct keyboard *kbd)
{
	size_t i = 0;

	for (i = 0; i < kbd->config.nr_layers; i++)
		while (kbd->layer_state[i].oneshot_depth) {
			deactivate_layer(kbd, i);
			kbd->layer_state[i].oneshot_depth--;
		}
""", """static void drain_oneshot(struct keyboard *kbd, size_t idx)
{
	while (kbd->layer_state[idx].oneshot_depth > 0) {
		kbd->layer_state[idx].oneshot_depth--;
		deactivate_layer(kbd, idx);
	}
}

static void clear_oneshot(struct keyboard *kbd)
{
	size_t n;
	size_t count = kbd->config.nr_layers;

	for (n = 0; n != count; n++)
		drain_oneshot(kbd, n);
""")]),
 ("clear-merge-if", [(K, """		if (layer->type != LT_LAYOUT) {
			if (kbd->layer_state[i].toggled) {
				kbd->layer_state[i].toggled = 0;
				deactivate_layer(kbd, i);
			}
		}
""", """		if (layer->type == LT_LAYOUT || !kbd->layer_state[i].toggled)
			continue;

		deactivate_layer(kbd, i);
		kbd->layer_state[i].toggled = 0;
""")]),
 ("toggle-expand", [(K, """			kbd->layer_state[idx].toggled = !kbd->layer_state[idx].toggled;

			if (kbd->layer_state[idx].toggled)
				activate_layer(kbd, code, idx);
			else
				deactivate_layer(kbd, idx);
""", """			if (kbd->layer_state[idx].toggled) {
				kbd->layer_state[idx].toggled = 0;
				deactivate_layer(kbd, idx);
			} else {
				kbd->layer_state[idx].toggled = 1;
				activate_layer(kbd, code, idx);
			}
""")]),
 ("layer-case-helper", [(K, """		if (kbd->last_pressed_code == code) {
			kbd->inhibit_modifier_guard = 1;
			update_mods(kbd, -1, 0);
			kbd->inhibit_modifier_guard = 0;
		} else {
			update_mods(kbd, -1, 0);
		}
""", """		kbd->inhibit_modifier_guard = kbd->last_pressed_code == code;
		update_mods(kbd, -1, 0);
		kbd->inhibit_modifier_guard = 0;
"""), ]),
 ("overloadt-helper", [(K, """static long process_descriptor(struct keyboard *kbd, uint8_t code,
			       const struct descriptor *d, int dl,
			       int pressed, long time)
{
	int i;""", """static void set_pending(struct keyboard *kbd, uint8_t code, int dl, long expire)
{
	kbd->pending_key.code = code;
	kbd->pending_key.dl = dl;
	kbd->pending_key.expire = expire;

	schedule_timeout(kbd, expire);
}

static long process_descriptor(struct keyboard *kbd, uint8_t code,
			       const struct descriptor *d, int dl,
			       int pressed, long time)
{
	int i;"""), (K, """			kbd->pending_key.code = code;
			kbd->pending_key.dl = dl;
			kbd->pending_key.expire = time + d->args[1].timeout;
			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;

			schedule_timeout(kbd, kbd->pending_key.expire);
""", """			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;
			set_pending(kbd, code, dl, time + d->args[1].timeout);
""")]),
 ("macro-case-split", [(K, """			if (d->op == OP_MACRO2) {
				macro = &kbd->config.macros[d->args[2].idx];

				timeout = d->args[0].timeout;
				kbd->macro_repeat_interval = d->args[1].timeout;
			} else {
				macro = &kbd->config.macros[d->args[0].idx];

				timeout = kbd->config.macro_timeout;
				kbd->macro_repeat_interval = kbd->config.macro_repeat_timeout;
			}
""", """			int explicit = d->op == OP_MACRO2;

			macro = &kbd->config.macros[explicit ? d->args[2].idx : d->args[0].idx];
			timeout = explicit ? d->args[0].timeout : kbd->config.macro_timeout;
			kbd->macro_repeat_interval = explicit ? d->args[1].timeout : kbd->config.macro_repeat_timeout;
""")]),
 ("keyseq-early", [(K, """		if (pressed) {
			/*
			 * Permit variations of the same key
			 * to be actuated next to each other
			 * E.G [/{
			 */
			if (kbd->keystate[new_code])
				send_key(kbd, new_code, 0);

			update_mods(kbd, dl, mods);

			send_key(kbd, new_code, 1);
			clear_oneshot(kbd);
		} else {
			send_key(kbd, new_code, 0);
			update_mods(kbd, -1, 0);
		}
""", """		if (!pressed) {
			send_key(kbd, new_code, 0);
			update_mods(kbd, -1, 0);
		} else {
			if (kbd->keystate[new_code] != 0)
				send_key(kbd, new_code, 0);

			update_mods(kbd, dl, mods);
			send_key(kbd, new_code, 1);
			clear_oneshot(kbd);
		}
""")]),
 ("event-split", [(K, """	if (handle_chord(kbd, code, pressed, time))
		goto exit;

	if (handle_pending_key(kbd, code, pressed, time))
		goto exit;
""", """	if (handle_chord(kbd, code, pressed, time) ||
	    handle_pending_key(kbd, code, pressed, time))
		return calculate_main_loop_timeout(kbd, time);
""")]),
 ("event-press-helper", [(K, """/*
 * `code` may be 0 in the event of a timeout.""", """static int lookup_pressed(struct keyboard *kbd, uint8_t code, struct descriptor *d, int *dl)
{
	if (cache_get(kbd, code))
		return -1;

	lookup_descriptor(kbd, code, d, dl);

	return cache_set(kbd, code, &(struct cache_entry) { .d = *d, .dl = *dl, .layer = 0 });
}

/*
 * `code` may be 0 in the event of a timeout."""), (K, """			if (cache_get(kbd, code))
				goto exit;

			lookup_descriptor(kbd, code, &d, &dl);

			if (cache_set(kbd, code, &(struct cache_entry) { .d = d, .dl = dl, .layer = 0 }))
				goto exit;
""", """			if (lookup_pressed(kbd, code, &d, &dl))
				goto exit;
""")]),
 ("enqueue-pointer", [(K, """	kbd->chord.queue[kbd->chord.queue_sz].code = code;
	kbd->chord.queue[kbd->chord.queue_sz].pressed = pressed;
	kbd->chord.queue[kbd->chord.queue_sz].timestamp = time;

	kbd->chord.queue_sz++;
""", """	struct key_event *ev = &kbd->chord.queue[kbd->chord.queue_sz++];

	ev->timestamp = time;
	ev->pressed = pressed;
	ev->code = code;
""")]),
 ("schedule-loop", [(K, """	for (i = 1; i < ARRAY_SIZE(kbd->timeouts); i++)
		if (kbd->timeouts[i] > kbd->timeouts[last])
			last = i;
""", """	i = 0;
	while (++i < ARRAY_SIZE(kbd->timeouts)) {
		if (kbd->timeouts[last] < kbd->timeouts[i])
			last = i;
	}
""")]),
 ("process-events-for", [(K, """	size_t i = 0;
	int timeout = 0;
	long timeout_ts = 0;

	while (i != n) {
		const struct key_event *ev = &events[i];

		if (timeout > 0 && timeout_ts <= ev->timestamp) {
			timeout = process_event(kbd, 0, 0, timeout_ts);
			timeout_ts = timeout_ts + timeout;
		} else {
			timeout = process_event(kbd, ev->code, ev->pressed, ev->timestamp);
			timeout_ts = ev->timestamp + timeout;
			i++;
		}
	}
""", """	const struct key_event *ev = events;
	const struct key_event *end = events + n;
	int timeout = 0;
	long timeout_ts = 0;

	while (ev != end) {
		if (timeout <= 0 || timeout_ts > ev->timestamp) {
			timeout = process_event(kbd, ev->code, ev->pressed, ev->timestamp);
			timeout_ts = ev->timestamp + timeout;
			ev++;
		} else {
			timeout = process_event(kbd, 0, 0, timeout_ts);
			timeout_ts += timeout;
		}
	}
""")]),
 ("timeout-loop", [(K, """	for (i = 0; i < kbd->nr_timeouts; i++)
		if (kbd->timeouts[i] > time) {
			if (!timeout || kbd->timeouts[i] < timeout)
				timeout = kbd->timeouts[i];

			kbd->timeouts[n++] = kbd->timeouts[i];
		}
""", """	for (i = 0; i < kbd->nr_timeouts; i++) {
		long ts = kbd->timeouts[i];

		if (ts <= time)
			continue;

		kbd->timeouts[n] = ts;
		n++;

		if (timeout == 0 || timeout > ts)
			timeout = ts;
	}
""")]),
 ("daemon-send-key-if", [(D, """	switch (code) {
		case KEYD_SCROLL_DOWN:
			if (state)
				vkbd_mouse_scroll(vkbd, 0, -1);
			break;
		case KEYD_SCROLL_UP:
			if (state)
				vkbd_mouse_scroll(vkbd, 0, 1);
			break;
		case KEYD_SCROLL_RIGHT:
			if (state)
				vkbd_mouse_scroll(vkbd, 1, 0);
			break;
		case KEYD_SCROLL_LEFT:
			if (state)
				vkbd_mouse_scroll(vkbd, -1, 0);
			break;
		default:
			vkbd_send_key(vkbd, code, state);
			break;
	}
""", """	int x = 0, y = 0;

	if (code == KEYD_SCROLL_DOWN)
		y = -1;
	else if (code == KEYD_SCROLL_UP)
		y = 1;
	else if (code == KEYD_SCROLL_RIGHT)
		x = 1;
	else if (code == KEYD_SCROLL_LEFT)
		x = -1;

	if (!x && !y)
		vkbd_send_key(vkbd, code, state);
	else if (state)
		vkbd_mouse_scroll(vkbd, x, y);
""")]),
 ("layer-change-helper", [(D, """static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
{
	size_t i;
	char buf[MAX_LAYER_NAME_LEN+3];
	ssize_t bufsz;
""", """static void update_indicator(const struct keyboard *kbd)
{
	size_t i;
	int active = 0;

	if (!kbd->config.layer_indicator)
		return;

	for (i = 1; !active && i < kbd->config.nr_layers; i++)
		active = kbd->config.layers[i].type != LT_LAYOUT && kbd->layer_state[i].active;

	for (i = 0; i < device_table_sz; i++)
		if (device_table[i].data == kbd)
			device_set_led(&device_table[i], 1, active);
}

static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
{
	size_t i;
	char buf[MAX_LAYER_NAME_LEN+3];
	ssize_t bufsz;
"""), (D, """	if (kbd->config.layer_indicator) {
		int active_layers = 0;

		for (i = 1; i < kbd->config.nr_layers; i++)
			if (kbd->config.layers[i].type != LT_LAYOUT && kbd->layer_state[i].active) {
				active_layers = 1;
				break;
			}

		for (i = 0; i < device_table_sz; i++)
			if (device_table[i].data == kbd)
				device_set_led(&device_table[i], 1, active_layers);
	}
""", "	update_indicator(kbd);\n")]),
 ("layer-change-loop", [(D, """	for (i = 0; i < nr_listeners; i++) {
		ssize_t nw = write(listeners[i], buf, bufsz);

		if (nw == bufsz)
			keep[n++] = listeners[i];
		else
			close(listeners[i]);
	}
""", """	for (i = 0; i < nr_listeners; i++) {
		int con = listeners[i];

		if (write(con, buf, bufsz) != bufsz) {
			close(con);
			continue;
		}

		keep[n] = con;
		n++;
	}
""")]),
 ("reply-helper", [(D, """static void send_success(int con)
{
	struct ipc_message msg = {0};

	msg.type = IPC_SUCCESS;;
	msg.sz = 0;

	if (write(con, &msg, sizeof msg) < 0)
		perror("write");
	close(con);
}
""", """static void reply(int con, const struct ipc_message *msg)
{
	if (write(con, msg, sizeof *msg) < 0)
		perror("write");
	close(con);
}

static void send_success(int con)
{
	struct ipc_message msg = {0};

	msg.type = IPC_SUCCESS;
	reply(con, &msg);
}
"""), (D, """	msg.sz = vsnprintf(msg.data, sizeof(msg.data), fmt, args);

	if (write(con, &msg, sizeof msg) < 0)
		perror("write");
	close(con);

	va_end(args);
""", """	msg.sz = vsnprintf(msg.data, sizeof(msg.data), fmt, args);
	va_end(args);

	reply(con, &msg);
""")]),
 ("client-switch-if", [(D, """	case IPC_INPUT:
		if (input(msg.data, msg.sz, msg.timeout))
			send_fail(con, "%s", errstr);
		else
			send_success(con);
		break;
""", """	case IPC_INPUT:
		if (!input(msg.data, msg.sz, msg.timeout)) {
			send_success(con);
			return;
		}

		send_fail(con, "%s", errstr);
		return;
""")]),
 ("bind-helper", [(D, """static void handle_client(int con)
{""", """static int bind_all(const char *exp)
{
	struct config_ent *ent = configs;
	int n = 0;

	while (ent) {
		if (kbd_eval(ent->kbd, exp) == 0)
			n++;
		ent = ent->next;
	}

	return n ? 0 : -1;
}

static void handle_client(int con)
{"""), (D, """		success = 0;

		if (msg""", """		if (msg"""), (D, """		for (ent = configs; ent; ent = ent->next) {
			if (!kbd_eval(ent->kbd, msg.data))
				success = 1;
		}

		if (success)
			send_success(con);
		else
			send_fail(con, "%s", errstr);
""", """		if (bind_all(msg.data))
			send_fail(con, "%s", errstr);
		else
			send_success(con);
"""), (D, """		struct config_ent *ent;
		int success;
		struct macro macro;
""", """		struct macro macro;
""")]),
 ("lookup-ent-for", [(D, """	struct config_ent *ent = configs;
	struct config_ent *match = NULL;
	int rank = 0;

	while (ent) {
		int r = config_check_match(&ent->config, id, flags);

		if (r > rank) {
			match = ent;
			rank = r;
		}

		ent = ent->next;
	}

	/* The wildcard should not match mice. */
	if (rank == 1 && (flags == ID_MOUSE))
		return NULL;
	else
		return match;
""", """	struct config_ent *ent;
	struct config_ent *match = NULL;
	int best = 0;

	for (ent = configs; ent; ent = ent->next) {
		int r = config_check_match(&ent->config, id, flags);

		if (r <= best)
			continue;

		best = r;
		match = ent;
	}

	/* The wildcard should not match mice. */
	return (best == 1 && flags == ID_MOUSE) ? NULL : match;
""")]),
 ("manage-invert", [(D, """	if ((ent = lookup_config_ent(dev->id, flags))) {
		if (device_grab(dev)) {
			keyd_log("DEVICE: y{WARNING} Failed to grab %s\\n", dev->path);
			dev->data = NULL;
			return;
		}

		keyd_log("DEVICE: g{match}    %s  %s\\t(%s)\\n",
			  dev->id, ent->config.path, dev->name);

		dev->data = ent->kbd;
	} else {
		dev->data = NULL;
		device_ungrab(dev);
		keyd_log("DEVICE: r{ignoring} %s  (%s)\\n", dev->id, dev->name);
	}
""", """	ent = lookup_config_ent(dev->id, flags);
	dev->data = NULL;

	if (!ent) {
		device_ungrab(dev);
		keyd_log("DEVICE: r{ignoring} %s  (%s)\\n", dev->id, dev->name);
		return;
	}

	if (device_grab(dev) != 0) {
		keyd_log("DEVICE: y{WARNING} Failed to grab %s\\n", dev->path);
		return;
	}

	dev->data = ent->kbd;

	keyd_log("DEVICE: g{match}    %s  %s\\t(%s)\\n",
		  dev->id, ent->config.path, dev->name);
""")]),
 ("scroll-helper", [(D, """static int event_handler(struct event *ev)
{
	static long last_time = 0;""", """static long process_ticks(struct keyboard *kbd, int n, uint8_t pos, uint8_t neg, long timestamp, long timeout)
{
	uint8_t code = n > 0 ? pos : neg;

	if (n < 0)
		n = -n;

	while (n--)
		timeout = min_timeout(timeout, process_keypress(kbd, code, timestamp));

	return timeout;
}

static int event_handler(struct event *ev)
{
	static long last_time = 0;"""), (D, """					if (ev->devev->x > 0)
						for (i = 0;i < (size_t)ev->devev->x; i++)
							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp));
					if (ev->devev->x < 0)
						for (i = 0;i < (size_t)-1*ev->devev->x; i++)
							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp));
					if (ev->devev->y > 0)
						for (i = 0;i < (size_t)ev->devev->y; i++)
							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp));
					if (ev->devev->y < 0)
						for (i = 0;i < (size_t)-1*ev->devev->y; i++)
							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp));
""", """					timeout = process_ticks(active_kbd, ev->devev->x, KEYD_SCROLL_RIGHT, KEYD_SCROLL_LEFT, ev->timestamp, timeout);
					timeout = process_ticks(active_kbd, ev->devev->y, KEYD_SCROLL_UP, KEYD_SCROLL_DOWN, ev->timestamp, timeout);
"""), (D, """			switch (ev->devev->type) {
			size_t i;
			case DEV_KEY""", """			switch (ev->devev->type) {
			case DEV_KEY""")]),
 ("event-handler-key-helper", [(D, """static int event_handler(struct event *ev)
{
	static long last_time = 0;""", """static long handle_key(struct keyboard *kbd, const struct device_event *devev, long timestamp)
{
	struct key_event kev = {
		.code = devev->code,
		.pressed = devev->pressed,
		.timestamp = timestamp
	};

	return kbd_process_events(kbd, &kev, 1);
}

static int event_handler(struct event *ev)
{
	static long last_time = 0;"""), (D, """				kev.code = ev->devev->code;
				kev.pressed = ev->devev->pressed;
				kev.timestamp = ev->timestamp;

				timeout = min_timeout(timeout, kbd_process_events(kbd, &kev, 1));
""", """				timeout = min_timeout(timeout, handle_key(kbd, ev->devev, ev->timestamp));
""")]),
 ("client-accept-helper", [(D, """static long process_keypress(""", """static void accept_client()
{
	int con;

	if ((con = accept(ipcfd, NULL, NULL)) >= 0) {
		fcntl(con, F_SETFD, FD_CLOEXEC);
		handle_client(con);
	} else {
		perror("accept");
	}
}

static long process_keypress("""), (D, """		if (ev->fd == ipcfd) {
			int con = accept(ipcfd, NULL, 0);
			if (con < 0) {
				perror("accept");
				break;
			}

			fcntl(con, F_SETFD, FD_CLOEXEC);

			handle_client(con);
		}
""", """		if (ev->fd == ipcfd)
			accept_client();
""")]),
 ("macro-exec-helper", [(M, """void macro_execute(void (*output)(uint8_t, uint8_t),""", """static void tap(void (*output)(uint8_t, uint8_t), uint8_t code)
{
	output(code, 1);
	output(code, 0);
}

static void send_mods(void (*output)(uint8_t, uint8_t), uint8_t mods, int state)
{
	size_t i;

	for (i = 0; i < ARRAY_SIZE(modifiers); i++) {
		if (!(mods & modifiers[i].mask))
			continue;

		output(modifiers[i].key, state);
	}
}

void macro_execute(void (*output)(uint8_t, uint8_t),"""), (M, """			for (j = 0; j < ARRAY_SIZE(modifiers); j++) {
				uint8_t code = modifiers[j].key;
				uint8_t mask = modifiers[j].mask;

				if (mods & mask)
					output(code, 1);
			}

			if (mods && timeout)
				usleep(timeout);

			output(code, 1);
			output(code, 0);

			for (j = 0; j < ARRAY_SIZE(modifiers); j++) {
				uint8_t code = modifiers[j].key;
				uint8_t mask = modifiers[j].mask;

				if (mods & mask)
					output(code, 0);
			}

""", """			send_mods(output, mods, 1);

			if (mods && timeout)
				usleep(timeout);

			tap(output, code);
			send_mods(output, mods, 0);
""")]),
 ("macro-exec-while", [(M, """	for (i = 0; i < macro->sz; i++) {
		const struct macro_entry *ent = &macro->entries[i];
""", """	i = 0;
	while (i < macro->sz) {
		const struct macro_entry *ent = &macro->entries[i++];
"""), (M, "				hold_start = i;\n", "				hold_start = i - 1;\n")]),
 ("macro-release-while", [(M, """				for (j = hold_start; j < i; j++) {
					const struct macro_entry *ent = &macro->entries[j];

					if (ent->type == MACRO_HOLD)
						output(ent->data, 0);
				}
""", """				const struct macro_entry *held = macro->entries + hold_start;

				for (j = hold_start; j < i; j++, held++) {
					if (held->type != MACRO_HOLD)
						continue;

					output(held->data, 0);
				}
""")]),
 ("input-tap-helper", [(D, """static int input(char *buf, size_t sz, uint32_t timeout)
{""", """static void tap_key(uint8_t code)
{
	vkbd_send_key(vkbd, code, 1);
	vkbd_send_key(vkbd, code, 0);
}

static int input(char *buf, size_t sz, uint32_t timeout)
{"""), (D, """				if (mods & MOD_SHIFT) {
					vkbd_send_key(vkbd, KEYD_LEFTSHIFT, 1);
					vkbd_send_key(vkbd, code, 1);
					vkbd_send_key(vkbd, code, 0);
					vkbd_send_key(vkbd, KEYD_LEFTSHIFT, 0);
				} else {
					vkbd_send_key(vkbd, code, 1);
					vkbd_send_key(vkbd, code, 0);
				}
""", """				int shift = mods & MOD_SHIFT;

				if (shift)
					vkbd_send_key(vkbd, KEYD_LEFTSHIFT, 1);

				tap_key(code);

				if (shift)
					vkbd_send_key(vkbd, KEYD_LEFTSHIFT, 0);
"""), (D, """				vkbd_send_key(vkbd, KEYD_SPACE, 1);
				vkbd_send_key(vkbd, KEYD_SPACE, 0);
""", """				tap_key(KEYD_SPACE);
""")]),
 ("read-file-len", [(C, """		if ((len+sz) >= MAX_FILE_SZ) {
			err("maximum file size exceed (%d)", MAX_FILE_SZ);
			goto fail;
		}
""", """		if (len >= MAX_FILE_SZ - sz) {
			err("maximum file size exceed (%d)", MAX_FILE_SZ);
			goto fail;
		}
""")]),
 ("read-file-include-helper", [(C, """static char *read_file(const char *path)
{""", """static int slurp(int fd, char *buf, int sz)
{
	int total = 0;
	int n;

	while ((n = read(fd, buf + total, sz - total)) > 0)
		total += n;

	return total;
}

static char *read_file(const char *path)
{"""), (C, """				int n;
				while ((n = read(fd, buf+sz, sizeof(buf)-sz-1)) > 0)
					sz += n;
				close(fd);
""", """				sz += slurp(fd, buf + sz, sizeof(buf) - sz - 1);
				close(fd);
""")]),
 ("set-layer-helper", [(C, """static int set_layer_entry(const struct config *config,""", """static int add_chord(struct layer *layer, const uint8_t *keys, size_t n, const struct descriptor *d)
{
	struct chord *chord;

	if (layer->nr_chords >= ARRAY_SIZE(layer->chords)) {
		err("max chords exceeded(%ld)", layer->nr_chords);
		return -1;
	}

	chord = &layer->chords[layer->nr_chords++];
	memcpy(chord->keys, keys, sizeof chord->keys);
	chord->sz = n;
	chord->d = *d;

	return 0;
}

static int set_layer_entry(const struct config *config,"""), (C, """		if ((ld = layer_lookup_chord(layer, keys, n))) {
			*ld = *d;
		} else {
			struct chord *chord;
			if (layer->nr_chords >= ARRAY_SIZE(layer->chords)) {
				err("max chords exceeded(%ld)", layer->nr_chords);
				return -1;
			}

			chord = &layer->chords[layer->nr_chords];
			memcpy(chord->keys, keys, sizeof keys);
			chord->sz = n;
			chord->d = *d;

			layer->nr_chords++;
		}
""", """		ld = layer_lookup_chord(layer, keys, n);

		if (!ld)
			return add_chord(layer, keys, n, d);

		*ld = *d;
""")]),
 ("descriptor-arg-helper", [(C, """static int parse_descriptor(char *s,
			    struct descriptor *d,
			    struct config *config)
{
	char *fn = NULL;""", """static int lookup_layer_arg(const struct config *config, const char *name)
{
	int idx;

	if (!strcmp(name, "main")) {
		err("the main layer cannot be toggled");
		return -1;
	}

	idx = config_get_layer_index(config, name);

	if (idx < 0 || config->layers[idx].type == LT_LAYOUT) {
		err("%s is not a valid layer", name);
		return -1;
	}

	return idx;
}

static int parse_descriptor(char *s,
			    struct descriptor *d,
			    struct config *config)
{
	char *fn = NULL;"""), (C, """						if (!strcmp(argstr, "main")) {
							err("the main layer cannot be toggled");
							return -1;
						}

						arg->idx = config_get_layer_index(config, argstr);
						if (arg->idx == -1 || config->layers[arg->idx].type == LT_LAYOUT) {
							err("%s is not a valid layer", argstr);
							return -1;
						}

						break;
""", """						arg->idx = lookup_layer_arg(config, argstr);
						if (arg->idx < 0)
							return -1;

						break;
""")]),
 ("id-section-helper", [(C, """static void parse_id_section(struct config *config, struct ini_section *section)
{""", """static void add_id(struct config *config, const char *id, uint8_t flags)
{
	config->ids[config->nr_ids].flags = flags;
	snprintf(config->ids[config->nr_ids].id, sizeof(config->ids[0].id), "%s", id);
	config->nr_ids++;
}

static void parse_id_section(struct config *config, struct ini_section *section)
{"""), (C, """			config->ids[config->nr_ids].flags = ID_MOUSE;

			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
""", """			add_id(config, s+2, ID_MOUSE);
"""), (C, """			config->ids[config->nr_ids].flags = ID_EXCLUDED;

			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+1);
""", """			add_id(config, s+1, ID_EXCLUDED);
"""), (C, """		} else if (strstr(s, "k:") == s) {""", """		} else if (!strncmp(s, "k:", 2)) {""")]),
 ("check-match-ref", [(C, """	for (i = 0; i < config->nr_ids; i++) {
		//Prefix match to allow matching <product>:<vendor> for backward compatibility.
		if (strstr(id, config->ids[i].id) == id) {
			if (config->ids[i].flags & ID_EXCLUDED) {
				return 0;
			} else if (config->ids[i].flags & flags) {
				return 2;
			}
		}
	}

	return config->wildcard ? 1 : 0;
""", """	for (i = 0; i < config->nr_ids; i++) {
		const char *prefix = config->ids[i].id;
		uint8_t idflags = config->ids[i].flags;

		//Prefix match to allow matching <product>:<vendor> for backward compatibility.
		if (strncmp(id, prefix, strlen(prefix)))
			continue;

		if (idflags & ID_EXCLUDED)
			return 0;

		if (idflags & flags)
			return 2;
	}

	if (config->wildcard)
		return 1;

	return 0;
""")]),
 ("global-order", [(C, """		if (!strcmp(ent->key, "macro_timeout"))
			config->macro_timeout = atoi(ent->val);
		else if (!strcmp(ent->key, "macro_sequence_timeout"))
			config->macro_sequence_timeout = atoi(ent->val);
		else if""", """		int val = atoi(ent->val);

		if (!strcmp(ent->key, "macro_sequence_timeout"))
			config->macro_sequence_timeout = val;
		else if (!strcmp(ent->key, "macro_timeout"))
			config->macro_timeout = val;
		else if""")]),
 ("fn-for", [(C, """	c = s;
	while (*c && *c != '(')
		c++;

	if (!*c)
		return -1;

	*name = s;""", """	c = strchr(s, '(');

	if (!c)
		return -1;

	*name = s;""")]),
 ("device-init-order", [(V, """		dev->fd = fd;
		dev->capabilities = capabilities;
		dev->data = NULL;
		dev->grabbed = 0;

		dev->is_virtual = info.vendor == 0x0FAC;
		return 0;
	}
""", """		dev->is_virtual = (info.vendor == 0x0FAC) ? 1 : 0;
		dev->grabbed = 0;
		dev->data = NULL;
		dev->capabilities = capabilities;
		dev->fd = fd;
		return 0;
	}
""")]),
 ("device-read-rel-helper", [(V, """	switch (ev.type) {
	case EV_REL:
		switch (ev.code) {
		case REL_WHEEL:
			devev.type = DEV_MOUSE_SCROLL;
			devev.y = ev.value;
			devev.x = 0;

			break;
		case REL_HWHEEL:
			devev.type = DEV_MOUSE_SCROLL;
			devev.y = 0;
			devev.x = ev.value;

			break;
		case REL_X:
			devev.type = DEV_MOUSE_MOVE;
			devev.x = ev.value;
			devev.y = 0;

			break;
		case REL_Y:
			devev.type = DEV_MOUSE_MOVE;
			devev.y = ev.value;
			devev.x = 0;

			break;
""", """	switch (ev.type) {
	case EV_REL:
		devev.x = 0;
		devev.y = 0;

		switch (ev.code) {
		case REL_WHEEL:
		case REL_HWHEEL:
			devev.type = DEV_MOUSE_SCROLL;

			if (ev.code == REL_WHEEL)
				devev.y = ev.value;
			else
				devev.x = ev.value;

			break;
		case REL_X:
		case REL_Y:
			devev.type = DEV_MOUSE_MOVE;

			if (ev.code == REL_X)
				devev.x = ev.value;
			else
				devev.y = ev.value;

			break;
""")]),
 ("device-removed-flat", [(V, """	if (read(dev->fd, &ev, sizeof(ev)) < 0) {
		if (errno == EAGAIN) {
			return NULL;
		} else {
			close(dev->fd);
			dev->fd = -1;
			devev.type = DEV_REMOVED;
			return &devev;
		}
	}
""", """	ssize_t nr = read(dev->fd, &ev, sizeof(ev));

	if (nr < 0 && errno == EAGAIN)
		return NULL;

	if (nr < 0) {
		int fd = dev->fd;

		dev->fd = -1;
		close(fd);
		devev.type = DEV_REMOVED;
		return &devev;
	}
""")]),
 ("grab-helper", [(V, """int device_grab(struct device *dev)
{""", """static int any_key_down(int fd)
{
	size_t i;
	uint8_t state[KEY_MAX / 8 + 1];

	memset(state, 0, sizeof(state));

	if (ioctl(fd, EVIOCGKEY(sizeof state), state) < 0) {
		perror("ioctl EVIOCGKEY");
		return -1;
	}

	for (i = 0; i < KEY_MAX; i++)
		if ((state[i / 8] >> (i % 8)) & 0x1)
			return 1;

	return 0;
}

int device_grab(struct device *dev)
{"""), (V, """	while (1) {
		int n = 0;
		memset(state, 0, sizeof(state));

		if (ioctl(dev->fd, EVIOCGKEY(sizeof state), state) < 0) {
			perror("ioctl EVIOCGKEY");
			return -1;
		}

		for (i = 0; i < KEY_MAX; i++) {
			if ((state[i / 8] >> (i % 8)) & 0x1)
				n++;
		}

		if (n == 0)
			break;
		else
			pending_release = 1;
	}
""", """	int down;

	while ((down = any_key_down(dev->fd)) != 0) {
		if (down < 0)
			return -1;

		pending_release = 1;
	}
"""), (V, """	size_t i;
	struct input_event ev;
	uint8_t state[KEY_MAX / 8 + 1];
	int pending_release = 0;
""", """	struct input_event ev;
	int pending_release = 0;
""")]),
 ("ungrab-flip", [(V, """	if (!ioctl(dev->fd, EVIOCGRAB, (void *) 0)) {
		dev->grabbed = 0;
		return 0;
	} else {
		return -1;
	}
""", """	if (ioctl(dev->fd, EVIOCGRAB, (void *) 0))
		return -1;

	dev->grabbed = 0;
	return 0;
""")]),
 ("panic-if", [(E, """	switch (code) {
	case KEYD_ENTER:
		enter = pressed;
		break;
	case KEYD_BACKSPACE:
		backspace = pressed;
		break;
	case KEYD_ESC:
		escape = pressed;
		break;
	}

	if (backspace && enter && escape)
		die("panic sequence detected");
""", """	if (code == KEYD_ENTER)
		enter = pressed;
	else if (code == KEYD_BACKSPACE)
		backspace = pressed;
	else if (code == KEYD_ESC)
		escape = pressed;

	if (!backspace || !enter || !escape)
		return;

	die("panic sequence detected");
""")]),
 ("evloop-poll-helper", [(E, """int evloop(int (*event_handler) (struct event *ev))
{""", """static size_t fill_pollfds(struct pollfd *pfds, int monfd)
{
	size_t i;
	size_t n = 0;

	pfds[n].fd = monfd;
	pfds[n].events = POLLIN;
	n++;

	for (i = 0; i < device_table_sz; i++) {
		pfds[n].fd = device_table[i].fd;
		pfds[n].events = POLLIN | POLLERR;
		n++;
	}

	for (i = 0; i < nr_aux_fds; i++) {
		pfds[n].fd = aux_fds[i];
		pfds[n].events = POLLIN | POLLERR;
		n++;
	}

	return n;
}

int evloop(int (*event_handler) (struct event *ev))
{"""), (E, """		pfds[0].fd = monfd;
		pfds[0].events = POLLIN;

		for (i = 0; i < device_table_sz; i++) {
			pfds[i+1].fd = device_table[i].fd;
			pfds[i+1].events = POLLIN | POLLERR;
		}

		for (i = 0; i < nr_aux_fds; i++) {
			pfds[i+device_table_sz+1].fd = aux_fds[i];
			pfds[i+device_table_sz+1].events = POLLIN | POLLERR;
		}

		start_time = get_time_ms();
		poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? timeout : -1);
""", """		size_t npfds = fill_pollfds(pfds, monfd);

		start_time = get_time_ms();
		poll(pfds, npfds, timeout > 0 ? timeout : -1);
""")]),
 ("evloop-dev-helper", [(E, """		if (removed) {
			size_t n = 0;
			for (i = 0; i < device_table_sz; i++) {
				if (device_table[i].fd != -1)
					device_table[n++] = device_table[i];
			}
			device_table_sz = n;
		}
""", """		if (removed)
			compact_devices();
"""), (E, """int evloop(int (*event_handler) (struct event *ev))
{""", """static void compact_devices()
{
	size_t i, n = 0;

	for (i = 0; i < device_table_sz; i++) {
		if (device_table[i].fd == -1)
			continue;

		device_table[n] = device_table[i];
		n++;
	}

	device_table_sz = n;
}

int evloop(int (*event_handler) (struct event *ev))
{""")]),
 ("evloop-loop-rewrite", [(E, """					if (devev->type == DEV_REMOVED) {
						ev.type = EV_DEV_REMOVE;
						ev.dev = &device_table[i];

						timeout = event_handler(&ev);

						device_table[i].fd = -1;
						removed = 1;
						break;
					} else {
						//Handle device event
						if (devev->type == DEV_KEY)
							panic_check(devev->code, devev->pressed);

						ev.type = EV_DEV_EVENT;
						ev.devev = devev;
						ev.dev = &device_table[i];

						timeout = event_handler(&ev);
					}
""", """					ev.dev = &device_table[i];

					if (devev->type != DEV_REMOVED) {
						if (devev->type == DEV_KEY)
							panic_check(devev->code, devev->pressed);

						ev.devev = devev;
						ev.type = EV_DEV_EVENT;
						timeout = event_handler(&ev);
						continue;
					}

					ev.type = EV_DEV_REMOVE;
					timeout = event_handler(&ev);
					removed = 1;
					device_table[i].fd = -1;
					break;
""")]),
 ("ipc-helper", [(I, """int ipc_create_server()
{""", """static int lock_socket()
{
	char lockpath[PATH_MAX];
	int lfd;

	snprintf(lockpath, sizeof lockpath, "%s.lock", SOCKET_PATH);
	lfd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0600);

	if (lfd < 0) {
		perror("open");
		exit(-1);
	}

	return flock(lfd, LOCK_EX | LOCK_NB);
}

int ipc_create_server()
{"""), (I, """	snprintf(lockpath, sizeof lockpath, "%s.lock", SOCKET_PATH);
	lfd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0600);

	if (lfd < 0) {
		perror("open");
		exit(-1);
	}

	if (flock(lfd, LOCK_EX | LOCK_NB))
		return -1;

	unlink""", """	if (lock_socket())
		return -1;

	unlink"""), (I, """	char lockpath[PATH_MAX];
	int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
	int lfd;
""", """	int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
""")]),
 ("uinput-event-helper", [(U, """void vkbd_mouse_move(const struct vkbd *vkbd, int x, int y)
{
	struct input_event ev;

	if (x) {
		ev.type = EV_REL;
		ev.code = REL_X;
		ev.value = x;

		ev.time.tv_sec = 0;
		ev.time.tv_usec = 0;

		xwrite(vkbd->pfd, &ev, sizeof(ev));
	}

	if (y) {
		ev.type = EV_REL;
		ev.code = REL_Y;
		ev.value = y;

		ev.time.tv_sec = 0;
		ev.time.tv_usec = 0;

		xwrite(vkbd->pfd, &ev, sizeof(ev));
	}

	ev.type = EV_SYN;
	ev.code = 0;
	ev.value = 0;

	xwrite(vkbd->pfd, &ev, sizeof(ev));
}
""", """static void emit(int fd, int type, int code, int value)
{
	struct input_event ev = {0};

	ev.type = type;
	ev.code = code;
	ev.value = value;

	xwrite(fd, &ev, sizeof(ev));
}

void vkbd_mouse_move(const struct vkbd *vkbd, int x, int y)
{
	if (x)
		emit(vkbd->pfd, EV_REL, REL_X, x);

	if (y)
		emit(vkbd->pfd, EV_REL, REL_Y, y);

	emit(vkbd->pfd, EV_SYN, 0, 0);
}
""")]),
 ("uinput-btn", [(U, """	if (is_btn) {
		fd = vkbd->pfd;
""", """	if (is_btn != 0) {
		fd = vkbd->pfd;
"""), (U, """	ev.type = EV_SYN;
	ev.code = 0;
	ev.value = 0;


	xwrite(fd, &ev, sizeof(ev));

	pthread_mutex_unlock(&mtx);
""", """	struct input_event syn = {0};

	syn.type = EV_SYN;
	xwrite(fd, &syn, sizeof(syn));

	pthread_mutex_unlock(&mtx);
""")]),
 ("command-helper", [(K, """	fd = open("/dev/null", O_RDWR);

	if (fd < 0) {
		perror("open");
		_exit(-1);
	}

	close(0);
	close(1);
	close(2);

	dup2(fd, 0);
	dup2(fd, 1);
	dup2(fd, 2);

	execl""", """	redirect_output();

	execl"""), (K, """static void execute_command(const char *cmd)
{
	int fd;
	pid_t pid;
""", """static void redirect_output()
{
	int i;
	int fd = open("/dev/null", O_RDWR);

	if (fd < 0) {
		perror("open");
		_exit(-1);
	}

	for (i = 0; i < 3; i++)
		dup2(fd, i);
}

static void execute_command(const char *cmd)
{
	pid_t pid;
""")]),
 ("pending-helper", [(K, """int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long time)
{""", """static int pending_contains(const struct keyboard *kbd, uint8_t code)
{
	size_t i;

	for (i = 0; i < kbd->pending_key.queue_sz; i++)
		if (kbd->pending_key.queue[i].code == code)
			return 1;

	return 0;
}

int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long time)
{"""), (K, """			size_t i;
			int found = 0;

			for (i = 0; i < kbd->pending_key.queue_sz; i++)
				if (kbd->pending_key.queue[i].code == code)
					found = 1;

			/* Propagate key up events for keys which were struck before the pending key. */
			if (!found && code != kbd->pending_key.code)
				return 0;
""", """			/* Propagate key up events for keys which were struck before the pending key. */
			if (code != kbd->pending_key.code && !pending_contains(kbd, code))
				return 0;
"""), (K, """		size_t i;

		for (i = 0; i < kbd->pending_key.queue_sz; i++)
			if (kbd->pending_key.queue[i].code == code) {
				action = kbd->pending_key.action2;
				break;
			}
""", """		if (pending_contains(kbd, code))
			action = kbd->pending_key.action2;
""")]),
 ("chord-helper", [(K, """static int handle_chord(struct keyboard *kbd,
			uint8_t code, int pressed, long time)
{
	size_t i;
""", """static int await_chord(struct keyboard *kbd, int state, long expire)
{
	kbd->chord.state = state;
	schedule_timeout(kbd, expire);
	return 1;
}

static int handle_chord(struct keyboard *kbd,
			uint8_t code, int pressed, long time)
{
	size_t i;
"""), (K, """				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;
				kbd->chord.last_code_time = time;
				schedule_timeout(kbd, time + interkey_timeout);
				return 1;
""", """				kbd->chord.last_code_time = time;
				return await_chord(kbd, CHORD_PENDING_DISAMBIGUATION, time + interkey_timeout);
"""), (K, """				kbd->chord.last_code_time = time;

				if (hold_timeout) {
					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
					schedule_timeout(kbd, time + hold_timeout);
				} else {
					return resolve_chord(kbd);
				}
				return 1;
""", """				kbd->chord.last_code_time = time;

				if (!hold_timeout)
					return resolve_chord(kbd);

				return await_chord(kbd, CHORD_PENDING_HOLD_TIMEOUT, time + hold_timeout);
""")]),
 ("chord-release-helper", [(K, """				for (i = 0; i < ac->chord.sz; i++) {
					if (ac->chord.keys[i] == code) {
						ac->chord.keys[i] = 0;
						found = 1;
					}

					if (ac->chord.keys[i])
						nremaining++;
				}
""", """				for (i = 0; i < ac->chord.sz; i++) {
					uint8_t key = ac->chord.keys[i];

					if (key == code) {
						found = 1;
						key = ac->chord.keys[i] = 0;
					}

					nremaining += !!key;
				}
""")]),
 ("resolve-order", [(K, """				ac->active = 1;
				ac->chord = *chord;
				ac->layer = kbd->chord.match_layer;
				code = KEYD_CHORD_1 + i;

				break;
""", """				code = KEYD_CHORD_1 + i;
				ac->layer = kbd->chord.match_layer;
				ac->chord = *chord;
				ac->active = 1;

				break;
""")]),
 ("setlayout-while", [(K, """	for (i = 1; i < kbd->config.nr_layers; i++) {
		struct layer *layer = &kbd->config.layers[i];

		if (layer->type == LT_LAYOUT)
			kbd->layer_state[i].active = 0;
	}
""", """	i = 1;
	while (i < kbd->config.nr_layers) {
		if (kbd->config.layers[i].type == LT_LAYOUT)
			kbd->layer_state[i].active = 0;
		i++;
	}
""")]),
 ("add-listener-helper", [(D, """static void add_listener(int con)
{""", """static const struct layer *current_layout(const struct keyboard *kbd)
{
	size_t i;

	for (i = 1; i < kbd->config.nr_layers; i++)
		if (kbd->layer_state[i].active && kbd->config.layers[i].type == LT_LAYOUT)
			return &kbd->config.layers[i];

	return &kbd->config.layers[0];
}

static void add_listener(int con)
{"""), (D, """		struct layer *layout = &config->layers[0];

		for (i = 1; i < config->nr_layers; i++)
			if (active_kbd->layer_state[i].active) {
				struct layer *layer = &config->layers[i];

				if (layer->type == LT_LAYOUT) {
					layout = layer;
					break;
				}
			}

		dprintf(con, "/%s\\n", layout->name);
""", """		dprintf(con, "/%s\\n", current_layout(active_kbd)->name);
"""), (D, """	listeners[nr_listeners++] = con;
	return;
""", """	listeners[nr_listeners] = con;
	nr_listeners++;
	return;
""")]),
 ("load-configs-flat", [(D, """			if (!config_parse(&ent->config, path)) {
				struct output output = {
					.send_key = send_key,
					.on_layer_change = on_layer_change,
				};
				ent->kbd = new_keyboard(&ent->config, &output);

				ent->next = configs;
				configs = ent;
			} else {
				free(ent);
				keyd_log("DEVICE: y{WARNING} failed to parse %s\\n", path);
			}
""", """			struct output output = {
				.send_key = send_key,
				.on_layer_change = on_layer_change,
			};

			if (config_parse(&ent->config, path)) {
				keyd_log("DEVICE: y{WARNING} failed to parse %s\\n", path);
				free(ent);
				continue;
			}

			ent->next = configs;
			ent->kbd = new_keyboard(&ent->config, &output);
			configs = ent;
""")]),
 ("free-configs-for", [(D, """	struct config_ent *ent = configs;
	while (ent) {
		struct config_ent *tmp = ent;
		ent = ent->next;
		free(tmp->kbd);
		free(tmp);
	}

	configs = NULL;
""", """	while (configs) {
		struct config_ent *next = configs->next;

		free(configs->kbd);
		free(configs);
		configs = next;
	}
""")]),
 ("clear-vkbd-merge", [(D, """	for (i = 0; i < 256; i++)
		if (keystate[i]) {
			vkbd_send_key(vkbd, i, 0);
			keystate[i] = 0;
		}
""", """	for (i = 0; i < ARRAY_SIZE(keystate); i++) {
		if (!keystate[i])
			continue;

		keystate[i] = 0;
		vkbd_send_key(vkbd, (uint8_t)i, 0);
	}
""")]),
 ("alias-early", [(C, """		if ((code = lookup_keycode(ent->key))) {
			ssize_t len = strlen(name);
""", """		code = lookup_keycode(ent->key);

		if (code != 0) {
			ssize_t len = strlen(name);
""")]),
 ("update-mods-helper", [(K, """static void update_mods(struct keyboard *kbd, int excluded_layer_idx, uint8_t mods)
{""", """static int is_constituent(const struct layer *layer, size_t idx)
{
	size_t j;

	if (layer->type != LT_COMPOSITE)
		return 0;

	for (j = 0; j < layer->nr_constituents; j++)
		if ((size_t)layer->constituents[j] == idx)
			return 1;

	return 0;
}

static void update_mods(struct keyboard *kbd, int excluded_layer_idx, uint8_t mods)
{"""), (K, """		if (layer == excluded_layer) {
			excluded = 1;
		} else if (excluded_layer && excluded_layer->type == LT_COMPOSITE) {
			size_t j;

			for (j = 0; j < excluded_layer->nr_constituents; j++)
				if ((size_t)excluded_layer->constituents[j] == i)
					excluded = 1;
		}

		if (!excluded)
			mods |= layer->mods;
""", """		if (excluded_layer)
			excluded = layer == excluded_layer || is_constituent(excluded_layer, i);

		mods |= excluded ? 0 : layer->mods;
""")]),
 ("set-mods-flat", [(K, """		if (mask & mods) {
			if (!kbd->keystate[code])
				send_key(kbd, code, 1);
		} else {
			if (kbd->keystate[code])
				clear_mod(kbd, code);
		}
""", """		int want = (mask & mods) != 0;
		int have = kbd->keystate[code] != 0;

		if (want && !have)
			send_key(kbd, code, 1);
		else if (!want && have)
			clear_mod(kbd, code);
""")]),
 ("str-escape-ref", [(S, """	for (i = 0; s[i]; i++) {
		if (s[i] == '\\\\') {
			switch (s[i+1]) {""", """	for (; s[i] != 0; i++) {
		if (s[i] == '\\\\') {
			char next = s[i+1];

			switch (next) {""")]),
 ("timeval-ref", [(S, """	while(*s && *s >= '0' && *s <= '9')
		s++;
""", """	for (; *s >= '0' && *s <= '9'; s++)
		;
""")]),
 ("noop-statements", [(K, "	dbg(\"executing command: %s\", cmd);\n", "	dbg(\"executing command: %s\", cmd);\n	(void)0;\n"),
                      (D, "	msg.type = IPC_FAIL;\n", "	do { } while (0);\n	msg.type = IPC_FAIL;\n"),
                      (C, "	layer->nr_chords = 0;\n", "	;\n	layer->nr_chords = 0;\n"),
                      (V, "	dev->grabbed = 1;\n", "	(void)dev;\n	dev->grabbed = 1;\n"),
                      (E, "	monfd = devmon_create();\n", "	(void)event_handler;\n	monfd = devmon_create();\n"),
                      (M, "	int hold_start = -1;\n", "	int hold_start = -1;\n	if (0) return;\n")]),
]
