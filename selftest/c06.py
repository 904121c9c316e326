K = "src/keyboard.c"
MUT = [
 ("oneshot-release-leak", [(K, "				kbd->layer_state[idx].oneshot_depth++;\n				if (kbd->config.oneshot_timeout) {", "				if (kbd->layer_state[idx].oneshot_depth)\n					break;\n				kbd->layer_state[idx].oneshot_depth++;\n				if (kbd->config.oneshot_timeout) {")]),
 ("swap-forget-new", [(K, "					ce->d.args[0].idx = idx;\n", "")]),
 ("overload-leak", [(K, "			deactivate_layer(kbd, idx);\n			update_mods(kbd, -1, 0);\n\n			if (kbd->last_pressed_code == code &&", "			if (kbd->last_pressed_code != code || !kbd->config.overload_tap_timeout)\n				deactivate_layer(kbd, idx);\n			update_mods(kbd, -1, 0);\n\n			if (kbd->last_pressed_code == code &&")]),
 ("clear-once", [(K, "		while (kbd->layer_state[i].oneshot_depth) {", "		if (kbd->layer_state[i].oneshot_depth) {")]),
 ("command-no-consume", [(K, "			execute_command(kbd->config.commands[d->args[0].idx].cmd);\n			clear_oneshot(kbd);", "			execute_command(kbd->config.commands[d->args[0].idx].cmd);")]),
]
