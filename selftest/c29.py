D = "src/daemon.c"
MUT = [
    ("register-first", [(D, "	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);\n", "	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);\n	listeners[nr_listeners++] = con;\n"), (D, "	listeners[nr_listeners++] = con;\n	return;\nfail:", "	return;\nfail:")]),
    ("no-timeout-either", [(D, "	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);\n", "	(void)tv;\n")]),
    ("long-timeout", [(D, "	tv.tv_sec = 0;\n\n	if (nr", "	tv.tv_sec = 5;\n\n	if (nr")]),
    ("rcvtimeo", [(D, "	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);\n", "	setsockopt(con, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);\n")]),
    ("keep-partial", [(D, "if (nw == bufsz)", "if (nw > 0)")]),
    ("keep-nonneg", [(D, "if (nw == bufsz)", "if (nw >= 0)")]),
    ("close-keep", [(D, "		if (nw == bufsz)\n			keep[n++] = listeners[i];\n		else\n			close(listeners[i]);", "		if (nw != bufsz)\n			close(listeners[i]);\n		keep[n++] = listeners[i];")]),
    ("leak-slow", [(D, "		else\n			close(listeners[i]);", "")]),
    ("copy-short", [(D, "memcpy(listeners, keep, n * sizeof(int))", "memcpy(listeners, keep, n)")]),
    ("no-count", [(D, "		nr_listeners = n;\n", "")]),
    ("no-copy", [(D, "		memcpy(listeners, keep, n * sizeof(int));\n", "")]),
    ("break", [(D, "		else\n			close(listeners[i]);", "		else {\n			close(listeners[i]);\n			break;\n		}")]),
    ("skip-layout-line", [(D, '		dprintf(con, "/%s\\n", layout->name);\n', "		(void)layout;\n")]),
    ("layout-order", [(D, '		dprintf(con, "/%s\\n", layout->name);\n', ""), (D, "	listeners[nr_listeners++] = con;\n", '	if (active_kbd)\n		dprintf(con, "/%s\\n", active_kbd->config.layers[0].name);\n	listeners[nr_listeners++] = con;\n')]),
    ("layers-from-2", [(D, "		for (i = 1; i < config->nr_layers; i++) {\n			if (active_kbd->layer_state[i].active) {\n				ssize_t ret;", "		for (i = 2; i < config->nr_layers; i++) {\n			if (active_kbd->layer_state[i].active) {\n				ssize_t ret;")]),
    ("layers-bound", [(D, "		for (i = 1; i < config->nr_layers; i++) {\n			if (active_kbd->layer_state[i].active) {\n				ssize_t ret;", "		for (i = 1; i < config->nr_layers - 1; i++) {\n			if (active_kbd->layer_state[i].active) {\n				ssize_t ret;")]),
    ("inactive-too", [(D, "			if (active_kbd->layer_state[i].active) {\n				ssize_t ret;", "			if (active_kbd->layer_state[i].active || active_kbd->layer_state[i].toggled) {\n				ssize_t ret;")]),
    ("toggled-only", [(D, "			if (active_kbd->layer_state[i].active) {\n				ssize_t ret;", "			if (active_kbd->layer_state[i].toggled) {\n				ssize_t ret;")]),
    ("layouts-too", [(D, "				if (layer->type != LT_LAYOUT) {\n					ret", "				if (1) {\n					ret")]),
    ("layout-wrong", [(D, "				if (layer->type == LT_LAYOUT) {\n					layout = layer;", "				if (layer->type != LT_NORMAL) {\n					layout = layer;")]),
    ("layout-inactive", [(D, "		for (i = 1; i < config->nr_layers; i++)\n			if (active_kbd->layer_state[i].active) {\n				struct layer *layer", "		for (i = 1; i < config->nr_layers; i++)\n			if (1) {\n				struct layer *layer")]),
    ("failed-registered", [(D, "					if (ret < 0)\n						goto fail;", "					if (ret < 0)\n						break;")]),
    ("fail-unclosed", [(D, "fail:\n	close(con);\n	return;", "fail:\n	return;")]),
    ("limit-unclosed", [(D, '			perror("write");\n\n		close(con);\n', '			perror("write");\n\n')]),
    ("limit-untold", [(D, "		if (write(con, s, sizeof(s)-1) < 0)\n			perror(\"write\");\n", "		(void)s;\n")]),
    ("close-all", [(D, "		if (nw == bufsz)\n			keep[n++] = listeners[i];\n		else\n			close(listeners[i]);", "		if (nw == bufsz && n < 8)\n			keep[n++] = listeners[i];\n		else\n			close(listeners[i]);")]),
]
REF = [
    ("neg-cond", [(D, "		if (nw == bufsz)\n			keep[n++] = listeners[i];\n		else\n			close(listeners[i]);", "		if (nw != bufsz) {\n			close(listeners[i]);\n			continue;\n		}\n		keep[n] = listeners[i];\n		n++;")]),
    ("memmove", [(D, "memcpy(listeners, keep, n * sizeof(int))", "memmove(listeners, keep, sizeof(keep[0]) * n)")]),
    ("inplace", [(D, "			keep[n++] = listeners[i];", "			listeners[n++] = listeners[i];"), (D, "		memcpy(listeners, keep, n * sizeof(int));\n", ""), (D, "	int keep[ARRAY_SIZE(listeners)];\n", "")]),
    ("always-write", [(D, "	if (n != nr_listeners) {\n		nr_listeners = n;\n		memcpy(listeners, keep, n * sizeof(int));\n	}", "	nr_listeners = n;\n	memcpy(listeners, keep, n * sizeof(int));")]),
    ("loop-copy", [(D, "		memcpy(listeners, keep, n * sizeof(int));\n", "		for (i = 0; i < n; i++)\n			listeners[i] = keep[i];\n")]),
    ("tv-init", [(D, "	struct timeval tv;\n\n	/*\n	 * In", "	struct timeval tv = {.tv_sec = 0, .tv_usec = 50000};\n\n	/*\n	 * In"), (D, "	tv.tv_usec = 50000;\n	tv.tv_sec = 0;\n", "")]),
    ("snapshot-helper", [(D, "static void add_listener(int con)\n{", "static const struct layer *cur_layout(struct keyboard *kbd)\n{\n	size_t i;\n	for (i = 1; i < kbd->config.nr_layers; i++)\n		if (kbd->layer_state[i].active && kbd->config.layers[i].type == LT_LAYOUT)\n			return &kbd->config.layers[i];\n	return &kbd->config.layers[0];\n}\n\nstatic void add_listener(int con)\n{"),
        (D, "		struct layer *layout = &config->layers[0];\n\n		for (i = 1; i < config->nr_layers; i++)\n			if (active_kbd->layer_state[i].active) {\n				struct layer *layer = &config->layers[i];\n\n				if (layer->type == LT_LAYOUT) {\n					layout = layer;\n					break;\n				}\n			}\n", "		const struct layer *layout = cur_layout(active_kbd);\n")]),
    ("continue-form", [(D, "			if (active_kbd->layer_state[i].active) {\n				ssize_t ret;\n				struct layer *layer = &config->layers[i];\n\n				if (layer->type != LT_LAYOUT) {\n					ret = dprintf(con, \"+%s\\n\", layer->name);\n					if (ret < 0)\n						goto fail;\n				}\n			}", "			struct layer *layer = &config->layers[i];\n			if (layer->type == LT_LAYOUT || !active_kbd->layer_state[i].active)\n				continue;\n			if (dprintf(con, \"+%s\\n\", layer->name) < 0)\n				goto fail;")]),
]
