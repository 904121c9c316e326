C = "src/config.c"
K = "src/keyboard.c"
D = "docs/keyd.scdoc"
MUT = [
    ("arg-order-clearm", [(C, '{ "swapm", 	NULL,	OP_SWAPM,	{ ARG_LAYER, ARG_MACRO } }', '{ "swapm", 	NULL,	OP_SWAPM,	{ ARG_MACRO, ARG_LAYER } }')]),
    ("macro2-order", [(C, "{ ARG_TIMEOUT, ARG_TIMEOUT, ARG_MACRO }", "{ ARG_MACRO, ARG_TIMEOUT, ARG_TIMEOUT }")]),
    ("overload3-op", [(C, '"overloadt2",	OP_OVERLOAD_TIMEOUT_TAP,	{', '"overloadt2",	OP_OVERLOAD_TIMEOUT,	{')]),
    ("overload2-pref", [(C, '{ "overload2", 	"overloadt",', '{ "overload2", 	"overloadt2",')]),
    ("swap2-op", [(C, '{ "swap2", 	"swapm",	OP_SWAPM,			{ ARG_LAYER, ARG_MACRO } }', '{ "swap2", 	"swapm",	OP_SWAP,			{ ARG_LAYER } }')]),
    ("pref-gone", [(C, '"togglem",	OP_TOGGLEM', '"toggle_m",	OP_TOGGLEM')]),
    ("layout-as-layer", [(C, "OP_LAYOUT,	{ ARG_LAYOUT }", "OP_LAYOUT,	{ ARG_LAYER }")]),
    ("scroll-timeout", [(C, "OP_SCROLL,			{ARG_SENSITIVITY}", "OP_SCROLL,			{ARG_LAYER}")]),
    ("dup-op", [(C, '{ "scrollt", 	NULL,	OP_SCROLL_TOGGLE,', '{ "scrollt", 	NULL,	OP_SCROLL,')]),
    ("nargs-less", [(C, "if ((int)nargs != j) {", "if ((int)nargs > j) {")]),
    ("nargs-more", [(C, "if ((int)nargs != j) {", "if ((int)nargs < j) {")]),
    ("nargs-one", [(C, "if ((int)nargs != j) {", "if ((int)nargs != j && nargs) {")]),
    ("layer-main", [(C, '						if (!strcmp(argstr, "main")) {\n							err("the main layer cannot be toggled");\n							return -1;\n						}\n', "")]),
    ("layer-layout", [(C, "if (arg->idx == -1 || config->layers[arg->idx].type == LT_LAYOUT) {", "if (arg->idx == -1) {")]),
    ("layer-missing", [(C, "if (arg->idx == -1 || config->layers[arg->idx].type == LT_LAYOUT) {", "if (arg->idx != -1 && config->layers[arg->idx].type == LT_LAYOUT) {")]),
    ("layout-nonlayout", [(C, "							(arg->idx != 0 && //Treat main as a valid layout\n							 config->layers[arg->idx].type != LT_LAYOUT)) {", "							config->layers[arg->idx].type == LT_COMPOSITE) {")]),
    ("layout-main", [(C, "(arg->idx != 0 && //Treat main as a valid layout", "(arg->idx == 0 || //Treat main as a valid layout")]),
    ("macro-idx", [(C, "						arg->idx = config->nr_macros;\n						config->nr_macros++;", "						config->nr_macros++;\n						arg->idx = config->nr_macros;")]),
    ("macro-noinc", [(C, "						arg->idx = config->nr_macros;\n						config->nr_macros++;", "						arg->idx = config->nr_macros;")]),
    ("desc-inplace", [(C, "						if (parse_descriptor(argstr, &desc, config))\n							return -1;\n\n						if (config->nr_descriptors >= ARRAY_SIZE(config->descriptors)) {\n							err(\"maximum descriptors exceeded\");\n							return -1;\n						}\n\n						config->descriptors[config->nr_descriptors] = desc;\n", "						(void)desc;\n						if (config->nr_descriptors >= ARRAY_SIZE(config->descriptors)) {\n							err(\"maximum descriptors exceeded\");\n							return -1;\n						}\n						if (parse_descriptor(argstr, &config->descriptors[config->nr_descriptors], config))\n							return -1;\n\n")]),
    ("desc-early", [(C, "						if (parse_descriptor(argstr, &desc, config))\n							return -1;\n", "						arg->idx = config->nr_descriptors;\n						if (parse_descriptor(argstr, &desc, config))\n							return -1;\n"), (C, "arg->idx = config->nr_descriptors++;", "config->nr_descriptors++;")]),
    ("desc-ignored", [(C, "						if (parse_descriptor(argstr, &desc, config))\n							return -1;\n", "						parse_descriptor(argstr, &desc, config);\n")]),
    ("desc-positive", [(C, "						if (parse_descriptor(argstr, &desc, config))\n", "						if (parse_descriptor(argstr, &desc, config) > 0)\n")]),
    ("macro-ret", [(C, "						if (parse_macro_expression(argstr, &config->macros[config->nr_macros])) {", "						if (parse_macro_expression(argstr, &config->macros[config->nr_macros]) < 0) {")]),
    ("timeout-arg0", [(C, "arg->timeout = atoi(argstr);", "arg->timeout = atoi(args[0]);")]),
    ("timeout-clamp", [(C, "arg->timeout = atoi(argstr);", "arg->timeout = (uint8_t)atoi(argstr);")]),
    ("lettermod-order", [(C, "args[1], args[0], args[1], args[3], args[2]);", "args[1], args[0], args[1], args[2], args[3]);")]),
    ("lettermod-t", [(C, '"overloadi(%s, overloadt2(%s, %s, %s), %s)"', '"overloadi(%s, overloadt(%s, %s, %s), %s)"')]),
    ("command-idx", [(C, "		d->args[0].idx = config->nr_commands;\n\n		config->commands[config->nr_commands++] = cmd;", "		config->commands[config->nr_commands++] = cmd;\n		d->args[0].idx = config->nr_commands;")]),
    ("macro-op", [(C, "		d->op = OP_MACRO;\n", "		d->op = OP_MACRO2;\n")]),
    ("key-mods", [(C, "		d->args[1].mods = mods;", "		d->args[1].mods = mods & (MOD_SHIFT|MOD_CTRL);")]),
    ("use-clearm", [(K, "			clear(kbd);\n			macro = &kbd->config.macros[d->args[0].idx];", "			clear(kbd);\n			macro = &kbd->config.macros[d->args[1].idx];")]),
    ("use-clearm2", [(K, "		case OP_LAYERM:\n		case OP_ONESHOTM:\n		case OP_TOGGLEM:\n			macro", "		case OP_LAYERM:\n		case OP_ONESHOTM:\n		case OP_CLEARM:\n		case OP_TOGGLEM:\n			macro")]),
    ("use-togglem-lost", [(K, "		case OP_ONESHOTM:\n		case OP_TOGGLEM:\n			macro", "		case OP_ONESHOTM:\n			macro")]),
    ("use-swapm", [(K, "macro = d->op == OP_SWAPM ?  &kbd->config.macros[d->args[1].idx] : NULL;", "macro = d->op == OP_SWAPM ?  &kbd->config.macros[d->args[0].idx] : NULL;")]),
    ("use-swap", [(K, "macro = d->op == OP_SWAPM ?  &kbd", "macro = d->op != OP_SWAPM ?  &kbd")]),
    ("use-idle-swap", [(K, "				action = &kbd->config.descriptors[d->args[1].idx];\n			else", "				action = &kbd->config.descriptors[d->args[2].idx];\n			else")]),
    ("use-idle-8", [(K, "			long timeout = d->args[2].timeout;", "			long timeout = d->args[2].code;")]),
    ("use-timeout-signed", [(K, "			long timeout = d->args[2].timeout;", "			long timeout = d->args[2].sensitivity;")]),
    ("use-expire-signed", [(K, "kbd->pending_key.expire = time + d->args[1].timeout;", "kbd->pending_key.expire = time + d->args[1].idx;")]),
    ("use-timeout-0", [(K, "kbd->pending_key.expire = time + d->args[1].timeout;", "kbd->pending_key.expire = time + d->args[0].timeout;")]),
    ("use-desc-8", [(K, "			struct descriptor *action = &kbd->config.descriptors[d->args[1].idx];\n\n			kbd->pending_key.code", "			uint8_t ai = d->args[1].idx;\n			struct descriptor *action = &kbd->config.descriptors[ai];\n\n			kbd->pending_key.code")]),
    ("nested-macro2", [(K, "if (action->op == OP_MACRO) {", "if (action->op == OP_MACRO || action->op == OP_MACRO2) {")]),
    ("nested-any", [(K, "if (action->op == OP_MACRO) {", "if (action->op >= OP_MACRO) {")]),
    ("made-op", [(K, "			kbd->pending_key.action2.op = OP_LAYER;", "			kbd->pending_key.action2.op = OP_MACRO;")]),
    ("made-arg", [(K, "			kbd->pending_key.action2.args[0].idx = layer;", "			kbd->pending_key.action2.args[0].idx = d->args[1].idx;")]),
    ("swap-made", [(K, "					ce->d.op = OP_LAYER;\n", "					ce->d.op = OP_OVERLOAD;\n")]),
    ("macro2-swap", [(K, "				timeout = d->args[0].timeout;\n				kbd->macro_repeat_interval = d->args[1].timeout;", "				timeout = d->args[0].timeout;\n				kbd->macro_repeat_interval = d->args[0].timeout;")]),
    ("macro2-idx", [(K, "				macro = &kbd->config.macros[d->args[2].idx];", "				macro = &kbd->config.macros[d->args[0].idx];")]),
    ("toggle-layout", [(K, "			setlayout(kbd, d->args[0].idx);", "			setlayout(kbd, d->args[1].idx);")]),
    ("command-macro", [(K, "kbd->config.commands[d->args[0].idx].cmd", "kbd->config.commands[d->args[0].code & 31].cmd")]),
    ("no-scrollt", [(K, "	case OP_SCROLL_TOGGLE:\n		kbd->scroll.sensitivity = d->args[0].sensitivity;\n		if (pressed)\n			kbd->scroll.active = !kbd->scroll.active;\n		break;", "	case OP_SCROLL_TOGGLE:\n		break;")]),
    ("scroll-idx", [(K, "		kbd->scroll.sensitivity = d->args[0].sensitivity;\n		if (pressed)\n			kbd->scroll.active = 1;", "		kbd->scroll.sensitivity = d->args[1].sensitivity;\n		if (pressed)\n			kbd->scroll.active = 1;")]),
    ("doc-missing", [(C, '	{ "clearm", 	NULL,	OP_CLEARM,	{ ARG_MACRO } },\n', "")]),
    ("layer-code", [(K, "	case OP_LAYERM:\n	case OP_LAYER:\n		idx = d->args[0].idx;", "	case OP_LAYERM:\n	case OP_LAYER:\n		idx = d->args[0].code & 15;")]),
]
REF = [
    ("arg-helper", [(C, "					case ARG_SENSITIVITY:\n						arg->sensitivity = atoi(argstr);\n						break;\n					case ARG_TIMEOUT:\n						arg->timeout = atoi(argstr);\n						break;", "					case ARG_SENSITIVITY:\n					case ARG_TIMEOUT: {\n						int n = atoi(argstr);\n						if (type == ARG_TIMEOUT)\n							d->args[j].timeout = n;\n						else\n							d->args[j].sensitivity = n;\n						break;\n					}")]),
    ("forward", [(C, "				while (j--) {\n", "				const int n = j;\n				for (j = 0; j < n; j++) {\n")]),
    ("helper", [(C, "static int parse_descriptor(char *s,\n			    struct descriptor *d,", "static int find_layer(struct config *config, const char *name, union descriptor_arg *arg)\n{\n	if (!strcmp(name, \"main\")) {\n		err(\"the main layer cannot be toggled\");\n		return -1;\n	}\n\n	arg->idx = config_get_layer_index(config, name);\n	if (arg->idx == -1 || config->layers[arg->idx].type == LT_LAYOUT) {\n		err(\"%s is not a valid layer\", name);\n		return -1;\n	}\n	return 0;\n}\n\nstatic int parse_descriptor(char *s,\n			    struct descriptor *d,"),
                (C, '						if (!strcmp(argstr, "main")) {\n							err("the main layer cannot be toggled");\n							return -1;\n						}\n\n						arg->idx = config_get_layer_index(config, argstr);\n						if (arg->idx == -1 || config->layers[arg->idx].type == LT_LAYOUT) {\n							err("%s is not a valid layer", argstr);\n							return -1;\n						}\n', "						if (find_layer(config, argstr, arg))\n							return -1;\n")]),
    ("layer-int", [(C, "						arg->idx = config_get_layer_index(config, argstr);\n						if (arg->idx == -1 || config->layers[arg->idx].type == LT_LAYOUT) {", "						const int li = config_get_layer_index(config, argstr);\n						arg->idx = li;\n						if (li < 0 || config->layers[li].type == LT_LAYOUT) {")]),
    ("desc-slot", [(C, "						config->descriptors[config->nr_descriptors] = desc;\n						arg->idx = config->nr_descriptors++;", "						struct descriptor *slot = &config->descriptors[config->nr_descriptors];\n						*slot = desc;\n						arg->idx = slot - config->descriptors;\n						config->nr_descriptors++;")]),
    ("table-order", [(C, '	{ "clear", 	NULL,	OP_CLEAR,	{} },\n', ""), (C, '	/* TODO: deprecate */\n', '	{ "clear", 	NULL,	OP_CLEAR,	{} },\n')]),
    ("use-split", [(K, "	case OP_SWAPM:\n		idx = d->args[0].idx;\n		macro = d->op == OP_SWAPM ?  &kbd->config.macros[d->args[1].idx] : NULL;", "	case OP_SWAPM:\n		idx = d->args[0].idx;\n		macro = NULL;\n		if (d->op == OP_SWAPM)\n			macro = kbd->config.macros + d->args[1].idx;")]),
    ("use-helper", [(K, "static long process_descriptor(struct keyboard *kbd, uint8_t code,\n			       const", "static struct macro *macro_of(struct keyboard *kbd, const union descriptor_arg *a)\n{\n	return &kbd->config.macros[a->idx];\n}\n\nstatic long process_descriptor(struct keyboard *kbd, uint8_t code,\n			       const"), (K, "			macro = &kbd->config.macros[d->args[1].idx];\n			execute_macro", "			macro = macro_of(kbd, &d->args[1]);\n			execute_macro")]),
    ("nested-switch", [(K, "if (action->op == OP_MACRO) {", "const int nested = action->op;\n				if (nested == OP_MACRO) {")]),
    ("layer-wide", [(K, "			uint8_t layer = d->args[0].idx;", "			int layer = d->args[0].idx;")]),
    ("const-table", [(C, "} actions[] =  {", "} const actions[] =  {"), (C, "static struct {\n	const char *name;\n	const char *preferred_name;", "static const struct {\n	const char *name;\n	const char *preferred_name;") ][:1]),
    ("setlayout-int", [(K, "static void setlayout(struct keyboard *kbd, uint8_t idx)", "static void setlayout(struct keyboard *kbd, int idx)")]),
    ("idle-ternary", [(K, "			if (((time - kbd->last_simple_key_time) >= timeout))\n				action = &kbd->config.descriptors[d->args[1].idx];\n			else\n				action = &kbd->config.descriptors[d->args[0].idx];", "			const int16_t ai = time - kbd->last_simple_key_time >= timeout ? d->args[1].idx : d->args[0].idx;\n			action = &kbd->config.descriptors[ai];")]),
]
