C = "src/config.c"
CHK = '''	if (strstr(include_path, ".")) {
		warn("%s: included files may not have a file extension", include_path);
		return NULL;
	}
'''
NL = '''				/* The included text must not run into the line after it. */
				if (sz > 0 && sz < MAX_FILE_SZ-1 && buf[sz-1] != '\\n')
					buf[sz++] = '\\n';
'''
MUT = [
    ("no-check", [(C, CHK, "")]),
    ("dotdot-only", [(C, 'if (strstr(include_path, ".")) {', 'if (strstr(include_path, "../")) {')]),
    ("conf-only", [(C, 'if (strstr(include_path, ".")) {', 'if (strstr(include_path, ".conf")) {')]),
    ("leading-dot", [(C, 'if (strstr(include_path, ".")) {', 'if (strstr(include_path, ".") == include_path) {')]),
    ("check-other", [(C, 'if (strstr(include_path, ".")) {', 'if (strstr(path, ".") && 0) {')]),
    ("warn-only", [(C, '		warn("%s: included files may not have a file extension", include_path);\n		return NULL;\n', '		warn("%s: included files may not have a file extension", include_path);\n')]),
    ("late-check", [(C, CHK, ""), (C, "	if (!access(resolved_path, F_OK))\n		return resolved_path;\n\n	snprintf", "	if (!access(resolved_path, F_OK))\n		return resolved_path;\n\n" + CHK + "	snprintf")]),
    ("absolute", [(C, "	strcpy(tmp, path);\n", "	if (include_path[0] == '/' && !access(include_path, F_OK))\n		return include_path;\n\n	strcpy(tmp, path);\n")]),
    ("cwd", [(C, "	strcpy(tmp, path);\n", '	snprintf(resolved_path, sizeof resolved_path, "%s", include_path);\n	if (!access(resolved_path, F_OK))\n		return resolved_path;\n\n	strcpy(tmp, path);\n')]),
    ("path-not-dir", [(C, "	dir = dirname(tmp);\n", "	dir = tmp;\n")]),
    ("home", [(C, "	dir = dirname(tmp);\n", '	dir = getenv("HOME") ? getenv("HOME") : dirname(tmp);\n')]),
    ("open-raw", [(C, "fd = open(resolved_path, O_RDONLY);", "fd = open(include_path, O_RDONLY);")]),
    ("other-data", [(C, 'DATA_DIR"/%s", include_path', '"/usr/%s", include_path')]),
    ("recursive", [(C, '			fd = open(resolved_path, O_RDONLY);', '			char *sub = read_file(resolved_path);\n			if (sub)\n				sz = strlen(sub);\n			fd = open(resolved_path, O_RDONLY);')]),
    ("no-newline", [(C, NL, "")]),
    ("newline-wrong", [(C, "buf[sz-1] != '\\n')", "buf[sz-1] == '\\n')")]),
    ("no-null-check", [(C, "			if (!resolved_path) {\n				warn(\"failed to resolve include path: %s\", include_path);\n				continue;\n			}\n", "			if (!resolved_path)\n				resolved_path = include_path;\n")]),
]
REF = [
    ("strchr", [(C, 'if (strstr(include_path, ".")) {', "if (strchr(include_path, '.') != NULL) {")]),
    ("check-in-caller", [(C, CHK, ""), (C, "			resolved_path = resolve_include_path(path, include_path);\n", "			resolved_path = strstr(include_path, \".\") ? NULL : resolve_include_path(path, include_path);\n")]),
    ("open-helper", [(C, "static char *read_file(const char *path)\n{", "static int open_include(const char *p)\n{\n	return open(p, O_RDONLY);\n}\n\nstatic char *read_file(const char *path)\n{"), (C, "fd = open(resolved_path, O_RDONLY);", "fd = open_include(resolved_path);")]),
    ("strncmp", [(C, "if (strstr(line, include_prefix) == line) {", "if (!strncmp(line, include_prefix, sizeof(include_prefix)-1)) {")]),
    ("data-arg", [(C, 'DATA_DIR"/%s", include_path', '"%s/%s", DATA_DIR, include_path')]),
    ("no-tmpdir", [(C, "	dir = dirname(tmp);\n	snprintf(resolved_path, sizeof resolved_path, \"%s/%s\", dir, include_path);", "	snprintf(resolved_path, sizeof resolved_path, \"%s/%s\", dirname(tmp), include_path);")]),
    ("always-newline", [(C, "				if (sz > 0 && sz < MAX_FILE_SZ-1 && buf[sz-1] != '\\n')\n", "				if (sz < MAX_FILE_SZ-1)\n")]),
    ("do-read", [(C, "				while ((n = read(fd, buf+sz, sizeof(buf)-sz-1)) > 0)\n					sz += n;\n", "				do {\n					n = read(fd, buf+sz, sizeof(buf)-sz-1);\n					if (n > 0)\n						sz += n;\n				} while (n > 0);\n")]),
    ("read-helper", [(C, "static char *read_file(const char *path)\n{", "static int slurp(int fd, char *b, int max)\n{\n	int n, sz = 0;\n	while ((n = read(fd, b+sz, max-sz)) > 0)\n		sz += n;\n	return sz;\n}\n\nstatic char *read_file(const char *path)\n{"),
                     (C, "				while ((n = read(fd, buf+sz, sizeof(buf)-sz-1)) > 0)\n					sz += n;\n", "				n = slurp(fd, buf+sz, sizeof(buf)-sz-1);\n				sz += n;\n")]),
]
