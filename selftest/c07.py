D, B = "src/daemon.c", "src/keyboard.c"
MUT = [
 ("deact-silent", [(B, "	kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 0);\n}", "	if (!kbd->layer_state[idx].active)\n		kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 0);\n}")]),
 ("deact-pol", [(B, "&kbd->config.layers[idx], 0);", "&kbd->config.layers[idx], kbd->layer_state[idx].active > 0);")]),
 ("act-cond", [(B, "	if ((ce = cache_get(kbd, code)))\n		ce->layer = idx;\n\n	kbd->output", "	if ((ce = cache_get(kbd, code)))\n		ce->layer = idx;\n\n	if (kbd->layer_state[idx].active == 1)\n	kbd->output")]),
 ("act-cache", [(B, "	if ((ce = cache_get(kbd, code)))\n		ce->layer = idx;\n\n	kbd->output", "	if (!(ce = cache_get(kbd, code)))\n		return;\n\n	ce->layer = idx;\n	kbd->output")]),
 ("before", [(B, "	kbd->layer_state[idx].activation_time = get_time();\n	kbd->layer_state[idx].active++;\n", "	kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 1);\n	kbd->layer_state[idx].activation_time = get_time();\n	kbd->layer_state[idx].active++;\n"), (B, "		ce->layer = idx;\n\n	kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 1);\n", "		ce->layer = idx;\n")]),
 ("layout-main", [(B, "		kbd->layer_state[idx].active = 1;\n	}\n\n	kbd->output", "		kbd->layer_state[idx].active = 1;\n	}\n\n	if (idx != 0)\n	kbd->output")]),
 ("layout-0", [(B, "		kbd->layer_state[idx].active = 1;\n	}\n\n	kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 1);", "		kbd->layer_state[idx].active = 1;\n	}\n\n	kbd->output.on_layer_change(kbd, &kbd->config.layers[0], 1);")]),
 ("swap-direct", [(B, "			if (kbd->layer_state[dl].toggled) {\n				deactivate_layer(kbd, dl);\n", "			if (kbd->layer_state[dl].toggled) {\n				kbd->layer_state[dl].active--;\n")]),
 ("double", [(B, "				activate_layer(kbd, 0, idx);\n				kbd->layer_state[idx].oneshot_depth++;", "				activate_layer(kbd, 0, idx);\n				kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 1);\n				kbd->layer_state[idx].oneshot_depth++;")]),
 ("sign", [(D, "state ? '+' : '-'", "kbd->layer_state[1].active ? '+' : '-'")]),
 ("layout-mark", [(D, "	if (layer->type == LT_LAYOUT)\n		bufsz", "	if (layer->type == LT_LAYOUT && state)\n		bufsz")]),
 ("composite-skip", [(D, "	if (!nr_listeners)\n		return;", "	if (!nr_listeners || layer->type == LT_COMPOSITE)\n		return;")]),
 ("name", [(D, "snprintf(buf, sizeof(buf), \"/%s\\n\", layer->name)", "snprintf(buf, sizeof(buf), \"/%s\\n\", kbd->config.layers[0].name)")]),
 ("shortbuf", [(D, "char buf[MAX_LAYER_NAME_LEN+3];", "char buf[MAX_LAYER_NAME_LEN+1];")]),
 ("fan-break", [(D, "		else\n			close(listeners[i]);\n	}\n\n	if (n != nr", "		else {\n			close(listeners[i]);\n			break;\n		}\n	}\n\n	if (n != nr")]),
 ("fan-first", [(D, "	for (i = 0; i < nr_listeners; i++) {\n		ssize_t nw", "	for (i = 1; i < nr_listeners; i++) {\n		ssize_t nw")]),
 ("fan-once", [(D, "	for (i = 0; i < nr_listeners; i++) {\n		ssize_t nw", "	for (i = 0; i < nr_listeners - 1; i++) {\n		ssize_t nw")]),
]
