C = "src/config.c"
D = "src/daemon.c"
V = "src/device.c"
MUT = [
    ("excl-continue", [(C, "			if (config->ids[i].flags & ID_EXCLUDED) {\n				return 0;\n			} else", "			if (config->ids[i].flags & ID_EXCLUDED) {\n				continue;\n			} else")]),
    ("named-1", [(C, "				return 2;", "				return 1;")]),
    ("wild-2", [(C, "	return config->wildcard ? 1 : 0;", "	return config->wildcard ? 2 : 0;")]),
    ("wild-first", [(C, "	for (i = 0; i < config->nr_ids; i++) {\n		//Prefix", "	if (config->wildcard)\n		return 1;\n	for (i = 0; i < config->nr_ids; i++) {\n		//Prefix")]),
    ("any-kind", [(C, "} else if (config->ids[i].flags & flags) {", "} else {")]),
    ("kind-mask", [(C, "} else if (config->ids[i].flags & flags) {", "} else if (flags & ID_KEYBOARD) {")]),
    ("substring", [(C, "if (strstr(id, config->ids[i].id) == id) {", "if (strstr(id, config->ids[i].id)) {")]),
    ("reverse-prefix", [(C, "if (strstr(id, config->ids[i].id) == id) {", "if (!strncmp(id, config->ids[i].id, strlen(id))) {")]),
    ("exact", [(C, "if (strstr(id, config->ids[i].id) == id) {", "if (!strcmp(id, config->ids[i].id)) {")]),
    ("skip-first", [(C, "	for (i = 0; i < config->nr_ids; i++) {\n		//Prefix", "	for (i = 1; i < config->nr_ids; i++) {\n		//Prefix")]),
    ("beyond", [(C, "	for (i = 0; i < config->nr_ids; i++) {\n		//Prefix", "	for (i = 0; i <= config->nr_ids; i++) {\n		//Prefix")]),
    ("return-in-loop", [(C, "				return 2;\n			}\n		}\n	}", "				return 2;\n			}\n			break;\n		}\n	}")]),
    ("rank-ge", [(D, "		if (r > rank) {", "		if (r >= rank) {")]),
    ("rank-any", [(D, "		if (r > rank) {", "		if (r) {")]),
    ("rank-first", [(D, "		if (r > rank) {", "		if (r > rank && !match) {")]),
    ("rank-not-updated", [(D, "			rank = r;\n", "			(void)rank;\n")]),
    ("mice", [(D, "	if (rank == 1 && (flags == ID_MOUSE))\n		return NULL;\n	else\n", "")]),
    ("mice-any", [(D, "(flags == ID_MOUSE)", "(flags & ID_MOUSE)")]),
    ("mice-2", [(D, "	if (rank == 1 && (flags == ID_MOUSE))", "	if ((flags == ID_MOUSE))")]),
    ("abs-not-mouse", [(D, "dev->capabilities & (CAP_MOUSE|CAP_MOUSE_ABS)", "dev->capabilities & CAP_MOUSE")]),
    ("kb-flag", [(D, "		flags |= ID_KEYBOARD;", "		flags = ID_MOUSE;")]),
    ("by-name", [(D, "lookup_config_ent(dev->id, flags)", "lookup_config_ent(dev->name, flags)")]),
    ("virtual", [(D, "	if (dev->is_virtual)\n		return;\n", "")]),
    ("last-only", [(D, "		ent = ent->next;\n	}\n\n	/* The wild", "		ent = ent->next;\n		if (ent && !ent->next)\n			break;\n	}\n\n	/* The wild")]),
    ("m-kb", [(C, "flags = ID_MOUSE;", "flags = ID_KEYBOARD | ID_MOUSE;")]),
    ("k-off", [(C, 'sizeof(config->ids[0].id), "%s", s+1);', 'sizeof(config->ids[0].id), "%s", s+2);')]),
    ("excl-both", [(C, "flags = ID_EXCLUDED;", "flags = ID_KEYBOARD | ID_MOUSE;")]),
    ("plain-kb", [(C, "flags = ID_KEYBOARD | ID_MOUSE;", "flags = ID_KEYBOARD;")]),
    ("or-flags", [(C, "flags = ID_EXCLUDED;", "flags |= ID_EXCLUDED;")]),
    ("m-anywhere", [(C, '} else if (strstr(s, "m:") == s) {', '} else if (strstr(s, "m:")) {')]),
    ("dash-anywhere", [(C, '} else if (strstr(s, "-") == s) {', '} else if (strstr(s, "-")) {')]),
    ("wild-break", [(C, "			config->wildcard = 1;\n", "			config->wildcard = 1;\n			break;\n")]),
    ("excl-wild", [(C, "			config->ids[config->nr_ids].flags = ID_EXCLUDED;\n", "			config->ids[config->nr_ids].flags = ID_EXCLUDED;\n			config->wildcard = 1;\n")]),
    ("no-count", [(C, '			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+1);', '			snprintf(config->ids[config->nr_ids].id, sizeof(config->ids[0].id), "%s", s+1);')]),
    ("kb-any", [(V, "	if (((mask[0] & keyboard_mask) == keyboard_mask) ||", "	if ((mask[0] & keyboard_mask) || num_keys ||")]),
    ("no-abs", [(V, "	if (*relmask || *absmask)", "	if (*relmask)"), (V, "		capabilities |= CAP_MOUSE_ABS;", "		capabilities |= 0;")]),
    ("no-volume", [(V, " || has_volume_key)", ")")]),
    ("id-order", [(V, "info.vendor, info.product, generate", "info.product, info.vendor, generate")]),
    ("id-dec", [(V, '"%04x:%04x:%08x"', '"%x:%x:%08x"')]),
    ("virtual-product", [(V, "dev->is_virtual = info.vendor == 0x0FAC;", "dev->is_virtual = info.product == 0x0FAC;")]),
]
REF = [
    ("strncmp", [(C, "if (strstr(id, config->ids[i].id) == id) {", "if (!strncmp(id, config->ids[i].id, strlen(config->ids[i].id))) {")]),
    ("helper", [(C, "int config_check_match(", "static int id_matches(const char *id, const char *pat)\n{\n	size_t n = strlen(pat);\n	return strncmp(id, pat, n) == 0;\n}\n\nint config_check_match("),
                (C, "if (strstr(id, config->ids[i].id) == id) {", "if (id_matches(id, config->ids[i].id)) {")]),
    ("best-first", [(D, "		if (r > rank) {\n			match = ent;\n			rank = r;\n		}", "		if (r <= rank) {\n			ent = ent->next;\n			continue;\n		}\n		rank = r;\n		match = ent;")]),
    ("for-list", [(D, "	while (ent) {\n		int r", "	for (; ent; ent = ent->next) {\n		int r"), (D, "			rank = r;\n		}\n\n		ent = ent->next;\n	}", "			rank = r;\n		}\n	}")]),
    ("stop-at-2", [(D, "			rank = r;\n		}", "			rank = r;\n			if (r == 2)\n				break;\n		}")]),
    ("chars", [(C, '} else if (strstr(s, "m:") == s) {', "} else if (s[0] == 'm' && s[1] == ':') {"), (C, '} else if (strstr(s, "-") == s) {', "} else if (*s == '-') {")]),
    ("strncmp-parse", [(C, 'if (strstr(s, "k:") == s)', 'if (!strncmp(s, "k:", 2))')]),
    ("add-helper", [(C, "static void parse_id_section(", "static void add_id(struct config *config, const char *s, uint8_t flags)\n{\n	config->ids[config->nr_ids].flags = flags;\n	snprintf(config->ids[config->nr_ids].id, sizeof(config->ids[0].id), \"%s\", s);\n	config->nr_ids++;\n}\n\nstatic void parse_id_section("),
                    (C, '			config->ids[config->nr_ids].flags = ID_MOUSE;\n\n			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);', "			add_id(config, s+2, ID_MOUSE);")]),
    ("excl-pass", [(C, "	for (i = 0; i < config->nr_ids; i++) {\n		//Prefix", "	for (i = 0; i < config->nr_ids; i++)\n		if ((config->ids[i].flags & ID_EXCLUDED) && strstr(id, config->ids[i].id) == id)\n			return 0;\n\n	for (i = 0; i < config->nr_ids; i++) {\n		//Prefix")]),
    ("uid-inline", [(V, "	capabilities = resolve_device_capabilities(fd, &num_keys, &relmask, &absmask);", "	num_keys = 0;\n	capabilities = resolve_device_capabilities(fd, &num_keys, &relmask, &absmask);")]),
    ("flags-cond", [(D, "	if (dev->capabilities & CAP_KEYBOARD)\n		flags |= ID_KEYBOARD;", "	flags = dev->capabilities & CAP_KEYBOARD ? ID_KEYBOARD : 0;")]),
]
