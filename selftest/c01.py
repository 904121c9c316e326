C = "src/config.c"
I = "src/ini.c"
X = "src/macro.c"
L = "src/log.c"
S = "src/string.c"
K = "src/keys.c"


def drop(f, text, by=""):
    return [(f, text, by)]


CH = """			if (layer->nr_chords >= ARRAY_SIZE(layer->chords)) {
				err("max chords exceeded(%ld)", layer->nr_chords);
				return -1;
			}
"""
CK = """			if (n >= ARRAY_SIZE(keys)) {
				err("chords cannot contain more than %ld keys", n);
				return -1;
			}
"""
CO = """			if (layer->nr_constituents >= ARRAY_SIZE(layer->constituents)) {
				err("max composite layers (%d) exceeded", ARRAY_SIZE(layer->constituents));
				return -1;
			}
"""
LY = """	if (config->nr_layers >= MAX_LAYERS) {
		err("max layers (%d) exceeded", MAX_LAYERS);
		return -1;
	}
"""
NM = """	if (strlen(s) >= sizeof buf) {
		err("%s exceeds maximum section length (%d) (ignoring)", s, MAX_LAYER_NAME_LEN);
		return -1;
	}
"""
ML = """	if (len >= sizeof(buf)) {
		err("macro size exceeded maximum size (%ld)\\n", sizeof(buf));
		return -1;
	}
"""
CM = """	if (len > (int)sizeof(command->cmd)) {
		err("max command length (%ld) exceeded\\n", sizeof(command->cmd));
		return 1;
	}
"""
CN = """		if (config->nr_commands >= ARRAY_SIZE(config->commands)) {
			err("max commands (%d), exceeded", ARRAY_SIZE(config->commands));
			return -1;
		}
"""
MN = """		if (config->nr_macros >= ARRAY_SIZE(config->macros)) {
			err("max macros (%d), exceeded", ARRAY_SIZE(config->macros));
			return -1;
		}

		d->op = OP_MACRO;
"""
DN = """						if (config->nr_descriptors >= ARRAY_SIZE(config->descriptors)) {
							err("maximum descriptors exceeded");
							return -1;
						}
"""
EX = """	if (strlen(exp) >= MAX_EXP_LEN) {
		err("%s exceeds maximum expression length (%d)", exp, MAX_EXP_LEN);
		return -1;
	}
"""
AL = "			if (len >= (ssize_t)sizeof(config->aliases[0])) {"
ID = "		} else if (config->nr_ids >= ARRAY_SIZE(config->ids)) {"
AE = "		if (macro->sz >= ARRAY_SIZE(macro->entries)) { \\"
FS = """		if ((len+sz) >= MAX_FILE_SZ) {
			err("maximum file size exceed (%d)", MAX_FILE_SZ);
			goto fail;
		}
"""
LN = "			if (len >= MAX_LINE_LEN) {"
RD = "read(fd, buf+sz, sizeof(buf)-sz-1)"


def off(text):
    return text.replace(">=", ">", 1)


MUT = [
    ("chords", drop(C, CH)), ("chords-off", drop(C, CH, off(CH))),
    ("chordkeys", drop(C, CK)), ("chordkeys-off", drop(C, CK, off(CK))),
    ("const", drop(C, CO)), ("const-off", drop(C, CO, off(CO))),
    ("layers", drop(C, LY)), ("layers-off", drop(C, LY, off(LY))),
    ("name", drop(C, NM)), ("name-off", drop(C, NM, off(NM))),
    ("name-short", drop(C, "	char buf[MAX_LAYER_NAME_LEN+1];\n	char *name;\n\n	if (strlen(s) >= sizeof buf)", "	char buf[MAX_LAYER_NAME_LEN];\n	char *name;\n\n	if (strlen(s) > sizeof buf)")),
    ("macrolen-off", drop(C, ML, off(ML))),
    ("macrolen-buf", drop(C, "	char buf[1024];\n	char *ptr = buf;", "	char buf[512];\n	char *ptr = buf;") + drop(C, "if (len >= sizeof(buf)) {\n		err(\"macro", "if (len >= 1024) {\n		err(\"macro")),
    ("cmdlen", drop(C, CM)), ("cmdlen-off", drop(C, "len > (int)sizeof(command->cmd)", "len > (int)sizeof(command->cmd) + 64")),
    ("cmds", drop(C, CN)), ("cmds-off", drop(C, CN, off(CN))),
    ("macros", drop(C, MN, "		d->op = OP_MACRO;\n")), ("macros-off", drop(C, MN, off(MN))),
    ("descs", drop(C, DN)), ("descs-off", drop(C, DN, off(DN))),
    ("exp", drop(C, EX)), ("exp-off", drop(C, EX, off(EX))),
    ("exp-size", drop(C, "	static char buf[MAX_EXP_LEN];", "	static char buf[MAX_EXP_LEN-1];")),
    ("alias-off", drop(C, AL, off(AL))), ("alias-32", drop(C, AL, "			if (len > 64) {")),
    ("ids-off", drop(C, ID, off(ID))), ("ids-none", drop(C, ID, "		} else if (0) {")),
    ("entries-off", drop(X, AE, off(AE))), ("entries-none", drop(X, AE, "		if (0) { \\")),
    ("filesz", drop(C, FS)), ("filesz-sz", drop(C, "if ((len+sz) >= MAX_FILE_SZ)", "if (sz >= MAX_FILE_SZ)")),
    ("filesz-off", drop(C, "if ((len+sz) >= MAX_FILE_SZ)", "if ((len+sz) > MAX_FILE_SZ)")),
    ("linelen", drop(C, LN, "			if (len > MAX_LINE_LEN) {")),
    ("readsz", drop(C, RD, "read(fd, buf+sz, sizeof(buf)-1)")),
    ("readsz-off", drop(C, RD, "read(fd, buf+sz, sizeof(buf)-sz)")),
    ("incl-nl", drop(C, "if (sz > 0 && sz < MAX_FILE_SZ-1 &&", "if (sz > 0 &&")),
    ("sections-off", drop(I, "if (n >= MAX_SECTIONS)", "if (n > MAX_SECTIONS)")),
    ("sections", drop(I, "				if (n >= MAX_SECTIONS)\n					return NULL;\n", "")),
    ("secname", drop(I, "strncpy(section->name, line+1, sizeof(section->name)-1)", "strcpy(section->name, line+1)")),
    ("secname-sz", drop(I, "strncpy(section->name, line+1, sizeof(section->name)-1)", "strncpy(section->name, line+1, 300)")),
    ("sections-ent-off", drop(I, "section->nr_entries >= MAX_SECTION_ENTRIES", "section->nr_entries > MAX_SECTION_ENTRIES")),
    ("sections-ent", drop(I, "		if (section->nr_entries >= MAX_SECTION_ENTRIES)\n			return NULL;\n", "")),
    ("log-n", drop(L, "s[i] != 0 && n < sizeof(buf)-1", "s[i] != 0")),
    ("log-off", drop(L, "n < sizeof(buf)-1", "n < sizeof(buf)")),
    ("log-5", drop(L, "(sizeof(buf)-n > 5)", "(sizeof(buf)-n > 3)")),
    ("log-5-none", drop(L, " && (sizeof(buf)-n > 5)", "")),
    ("log-4-none", drop(L, " && (sizeof(buf)-n > 4)", "")),
    ("args", drop(C, "nargs == 5", "nargs == 6") if False else drop(C, "	char *args[5];", "	char *args[4];")),
]

REF = [
    ("macrolen", drop(C, ML)),          # the texts are never that long
    ("secname-end", drop(I, "				section->name[sizeof(section->name)-1] = 0;\n", "")),
    ("chords-inv", drop(C, CH, CH.replace("layer->nr_chords >= ARRAY_SIZE(layer->chords)", "!(layer->nr_chords < ARRAY_SIZE(layer->chords))"))),
    ("chords-helper", drop(C, CH, CH.replace("layer->nr_chords >= ARRAY_SIZE(layer->chords)", "chords_full(layer)")) +
        drop(C, "static int parse_command(", "static int parse_command(") +
        drop(C, "static int set_layer_entry(", "static int chords_full(const struct layer *layer)\n{\n	return layer->nr_chords >= ARRAY_SIZE(layer->chords);\n}\n\nstatic int set_layer_entry(")),
    ("chordkeys-const", drop(C, CK, CK.replace("n >= ARRAY_SIZE(keys)", "n == ARRAY_SIZE(keys)"))),
    ("const-lt", drop(C, CO + "\n			layer->constituents[layer->nr_constituents++] = idx;", """			if (layer->nr_constituents < ARRAY_SIZE(layer->constituents)) {
				layer->constituents[layer->nr_constituents] = idx;
				layer->nr_constituents++;
			} else {
				err("max composite layers (%d) exceeded", ARRAY_SIZE(layer->constituents));
				return -1;
			}
""")),
    ("layers-array", drop(C, LY, LY.replace(">= MAX_LAYERS)", ">= ARRAY_SIZE(config->layers))"))),
    ("layers-ptr", drop(C, "	ret = new_layer(buf, config, &config->layers[config->nr_layers]);\n", "	struct layer *fresh = config->layers + config->nr_layers;\n	ret = new_layer(buf, config, fresh);\n")),
    ("name-len", drop(C, NM, NM.replace("strlen(s) >= sizeof buf", "strlen(s) > MAX_LAYER_NAME_LEN"))),
    ("name-memcpy", drop(C, "	strcpy(buf, s);\n	name = strtok", "	memcpy(buf, s, strlen(s)+1);\n	name = strtok")),
    ("name-snprintf", drop(C, "	strcpy(buf, s);\n	name = strtok", "	snprintf(buf, sizeof buf, \"%s\", s);\n	name = strtok")),
    ("macrolen-var", drop(C, ML, ML.replace("len >= sizeof(buf)", "len + 1 > sizeof(buf)"))),
    ("cmds-var", drop(C, "		config->commands[config->nr_commands++] = cmd;", "		config->commands[d->args[0].idx] = cmd;\n		config->nr_commands++;")),
    ("macros-order", drop(C, MN, """		if (config->nr_macros < ARRAY_SIZE(config->macros))
			d->op = OP_MACRO;
		else {
			err("max macros (%d), exceeded", ARRAY_SIZE(config->macros));
			return -1;
		}
""")),
    ("descs-idx", drop(C, "						config->descriptors[config->nr_descriptors] = desc;\n						arg->idx = config->nr_descriptors++;\n", "						arg->idx = config->nr_descriptors;\n						memcpy(config->descriptors + arg->idx, &desc, sizeof desc);\n						config->nr_descriptors += 1;\n")),
    ("exp-sizeof", drop(C, "if (strlen(exp) >= MAX_EXP_LEN)", "size_t explen = strlen(exp);\n\n	if (explen > sizeof(buf) - 1)")),
    ("alias-strlen", drop(C, AL, "			if (strlen(name) > sizeof(config->aliases[0])-1) {")),
    ("ids-idx", drop(C, "			config->ids[config->nr_ids].flags = ID_MOUSE;\n\n			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), \"%s\", s+2);", "			char *idstr = config->ids[config->nr_ids].id;\n			config->ids[config->nr_ids].flags = ID_MOUSE;\n			config->nr_ids++;\n\n			snprintf(idstr, sizeof(config->ids[0].id), \"%s\", s+2);")),
    ("entries-ptr", drop(X, "		macro->entries[macro->sz].type = t; \\\n		macro->entries[macro->sz].data = d; \\\n		macro->sz++; \\", "		struct macro_entry *me = &macro->entries[macro->sz++]; \\\n		me->type = t; \\\n		me->data = d; \\")),
    ("filesz-order", drop(C, "if ((len+sz) >= MAX_FILE_SZ)", "if (len >= MAX_FILE_SZ - sz)")),
    ("filesz-sizeof", drop(C, "if ((len+sz) >= MAX_FILE_SZ)", "if (!((sz+len) < (int)sizeof(buf)))")),
    ("filesz-memcpy", drop(C, "			strcpy(buf+sz, line);\n			sz += len;", "			memcpy(buf+sz, line, len+1);\n			sz += len;")),
    ("readsz-max", drop(C, RD, "read(fd, buf+sz, MAX_FILE_SZ-1-sz)")),
    ("readsz-for", drop(C, "				while ((n = " + RD + ") > 0)\n					sz += n;", "				for (;;) {\n					n = " + RD + ";\n					if (n <= 0)\n						break;\n					sz += n;\n				}")),
    ("sections-inv", drop(I, "				if (n >= MAX_SECTIONS)\n					return NULL;\n\n				section = &ini.sections[n++];", "				if (n == sizeof(ini.sections)/sizeof(ini.sections[0]))\n					return NULL;\n\n				section = ini.sections + n;\n				n++;")),
    ("secname-snprintf", drop(I, "				strncpy(section->name, line+1, sizeof(section->name)-1);\n				section->name[sizeof(section->name)-1] = 0;", "				snprintf(section->name, sizeof section->name, \"%s\", line+1);")),
    ("entries-lt", drop(I, "		if (section->nr_entries >= MAX_SECTION_ENTRIES)\n			return NULL;\n\n		ent = &section->entries[section->nr_entries++];", "		if (section->nr_entries == MAX_SECTION_ENTRIES)\n			return NULL;\n\n		ent = section->entries + section->nr_entries;\n		section->nr_entries++;")),
    ("log-while", drop(L, "	for (i = 0; s[i] != 0 && n < sizeof(buf)-1; i++) {", "	for (i = 0; s[i]; i++) {\n		if (n >= sizeof(buf)-1)\n			break;\n")),
    ("log-add", drop(L, "(sizeof(buf)-n > 5)", "(n + 5 < sizeof(buf))")),
    ("log-ptr", drop(L, "				memcpy(buf+n, \"\\033[0m\", 4);\n				n += 4;", "				char *end = buf+n;\n				memcpy(end, \"\\033[0m\", 4);\n				n = n + 4;")),
]
