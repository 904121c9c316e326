D = "src/daemon.c"; V = "src/device.c"; L = "src/evloop.c"
RL = "	active_kbd = NULL;\n\n	free_configs();\n	load_configs();\n\n	for (i = 0; i < device_table_sz; i++)\n		manage_device(&device_table[i]);\n\n	clear_vkbd();\n"
EL = "		dev->data = NULL;\n		device_ungrab(dev);"
MUT = [
    ("no-null", [(D, RL, RL.replace("	active_kbd = NULL;\n\n", ""))]),
    ("cond-null", [(D, RL, RL.replace("	active_kbd = NULL;\n", "	if (nr_listeners)\n		active_kbd = NULL;\n"))]),
    ("loop-from1", [(D, RL, RL.replace("i = 0", "i = 1"))]),
    ("loop-grabbed", [(D, RL, RL.replace("		manage_device", "		if (!device_table[i].grabbed)\n			manage_device"))]),
    ("loop-break", [(D, RL, RL.replace("		manage_device(&device_table[i]);\n", "	{\n		manage_device(&device_table[i]);\n		if (!configs)\n			break;\n	}\n"))]),
    ("no-loop", [(D, RL, RL.replace("	for (i = 0; i < device_table_sz; i++)\n		manage_device(&device_table[i]);\n\n", "	(void)i;\n"))]),
    ("grab-fail", [(D, "			keyd_log(\"DEVICE: y{WARNING} Failed to grab %s\\n\", dev->path);\n			dev->data = NULL;\n", "			keyd_log(\"DEVICE: y{WARNING} Failed to grab %s\\n\", dev->path);\n")]),
    ("else-keep", [(D, EL, EL.replace("		dev->data = NULL;\n", ""))]),
    ("else-cond", [(D, EL, EL.replace("		dev->data = NULL;\n", "		if (dev->grabbed)\n			dev->data = NULL;\n"))]),
    ("virt-caps", [(D, "	if (dev->is_virtual)\n		return;\n\n	if (dev->cap", "	if (dev->is_virtual || !dev->capabilities)\n		return;\n\n	if (dev->cap")]),
    ("configs-keep", [(D, "	configs = NULL;\n}\n\nstatic void cleanup", "}\n\nstatic void cleanup"), (D, "	configs = NULL;\n\n	while ((dirent", "	while ((dirent")]),
    ("uaf-list", [(D, "		struct config_ent *tmp = ent;\n		ent = ent->next;\n		free(tmp->kbd);\n		free(tmp);", "		free(ent->kbd);\n		free(ent);\n		ent = ent->next;")]),
    ("uaf-order", [(D, "		free(tmp->kbd);\n		free(tmp);", "		free(tmp);\n		free(tmp->kbd);")]),
    ("double", [(D, "				free(ent);\n				keyd_log(\"DEVICE: y", "				free(ent);\n				ent->next = configs;\n				keyd_log(\"DEVICE: y")]),
    ("use-before", [(D, RL, RL.replace("	active_kbd = NULL;\n\n", "").replace("	clear_vkbd();", "	if (active_kbd)\n		kbd_process_events(active_kbd, NULL, 0);\n	active_kbd = NULL;\n	clear_vkbd();"))]),
    ("null-use", [(D, "		if (!active_kbd)\n			return 0;\n\n		kev.code = 0;", "		kev.code = 0;")]),
    ("null-use2", [(D, "			if (active_kbd && (ev->devev->type == DEV_KEY ||", "			if ((ev->devev->type == DEV_KEY ||")]),
    ("cache", [(D, "static struct keyboard *active_kbd = NULL;\n", "static struct keyboard *active_kbd = NULL;\nstatic struct keyboard *last_kbd = NULL;\n"),
               (D, "		timeout = kbd_process_events(active_kbd, &kev, 1);\n		break;", "		timeout = kbd_process_events(last_kbd ? last_kbd : active_kbd, &kev, 1);\n		break;"),
               (D, "			active_kbd = ev->dev->data;\n", "			active_kbd = ev->dev->data;\n			last_kbd = active_kbd;\n")]),
    ("cache-cfg", [(D, "static struct keyboard *active_kbd = NULL;\n", "static struct keyboard *active_kbd = NULL;\nstatic struct config_ent *last_match = NULL;\n"),
               (D, "	while (ent) {\n		int r = config_check", "	if (last_match && config_check_match(&last_match->config, id, flags) == 2)\n		return last_match;\n\n	while (ent) {\n		int r = config_check"),
               (D, "	else\n		return match;", "	else\n		return last_match = match;")]),
    ("partial-reload", [(D, "static void reload()\n{\n	size_t i;\n\n	active_kbd = NULL;", "static void reload()\n{\n	size_t i;\n\n	if (!device_table_sz) {\n		free_configs();\n		load_configs();\n		return;\n	}\n	active_kbd = NULL;")]),
    ("keep-kbd", [(D, "static void reload()\n{\n	size_t i;\n", "static void reload()\n{\n	size_t i;\n	struct keyboard *old = active_kbd;\n"), (D, "		manage_device(&device_table[i]);\n\n	clear_vkbd();", "		manage_device(&device_table[i]);\n\n	for (i = 0; i < device_table_sz; i++)\n		if (device_table[i].data == old)\n			active_kbd = old;\n	clear_vkbd();")]),
]
REF = [
    ("null-after", [(D, RL, "	free_configs();\n	active_kbd = NULL;\n	load_configs();\n\n	for (i = 0; i < device_table_sz; i++)\n		manage_device(&device_table[i]);\n\n	clear_vkbd();\n")]),
    ("null-last", [(D, RL, RL.replace("	active_kbd = NULL;\n\n", "") + "	active_kbd = NULL;\n")]),
    ("reload-helper", [(D, "static void reload()\n{", "static void manage_all()\n{\n	size_t i;\n	for (i = 0; i < device_table_sz; i++)\n		manage_device(&device_table[i]);\n}\n\nstatic void reload()\n{"), (D, RL, RL.replace("	for (i = 0; i < device_table_sz; i++)\n		manage_device(&device_table[i]);\n", "	(void)i;\n	manage_all();\n"))]),
    ("ptr-loop", [(D, RL, RL.replace("	for (i = 0; i < device_table_sz; i++)\n		manage_device(&device_table[i]);\n", "	i = 0;\n	while (i < device_table_sz) {\n		struct device *dev = &device_table[i++];\n		manage_device(dev);\n	}\n"))]),
    ("invert", [(D, "	if (dev->is_virtual)\n		return;\n\n	if (dev->cap", "	const int virt = dev->is_virtual;\n	if (virt != 0)\n		return;\n\n	if (dev->cap")]),
    ("data-first", [(D, "	uint8_t flags = 0;\n	struct config_ent *ent;\n\n	if (dev->is_virtual)\n		return;\n", "	uint8_t flags = 0;\n	struct config_ent *ent;\n\n	if (dev->is_virtual)\n		return;\n\n	dev->data = NULL;\n")]),
    ("free-for", [(D, "	struct config_ent *ent = configs;\n	while (ent) {\n		struct config_ent *tmp = ent;\n		ent = ent->next;\n		free(tmp->kbd);\n		free(tmp);\n	}", "	struct config_ent *ent, *next;\n	for (ent = configs; ent; ent = next) {\n		next = ent->next;\n		free(ent->kbd);\n		free(ent);\n	}")]),
    ("free-head", [(D, "	struct config_ent *ent = configs;\n	while (ent) {\n		struct config_ent *tmp = ent;\n		ent = ent->next;\n		free(tmp->kbd);\n		free(tmp);\n	}", "	while (configs) {\n		struct config_ent *tmp = configs;\n		configs = tmp->next;\n		free(tmp->kbd);\n		free(tmp);\n	}")]),
]
