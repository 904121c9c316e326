K = "src/keyboard.c"
D = "src/daemon.c"
V = "src/device.c"
E = "src/evloop.c"
G = "src/keyd.c"
M = "src/monitor.c"
X = "src/macro.c"
U = "src/vkbd/uinput.c"

TM = """	if (kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts)) {
		kbd->timeouts[kbd->nr_timeouts++] = timeout;
		return;
	}
"""
LI = "	if (nr_listeners == ARRAY_SIZE(listeners)) {"
MS = """	if (msg.sz >= sizeof(msg.data)) {
		send_fail(con, "maximum message size exceeded");
		return;
	}
"""
DV = """			if (n >= MAX_DEVICES)
				break;
"""
DT = """				if (device_table_sz >= MAX_DEVICES) {
					keyd_log("ERROR: too many devices, ignoring %s\\n", dev.path);
					close(dev.fd);
					continue;
				}

"""
PQ = "	if (time >= kbd->pending_key.expire ||\n	    kbd->pending_key.queue_sz >= ARRAY_SIZE(kbd->pending_key.queue)) {"
CQ1 = "		if (!pressed || kbd->chord.queue_sz >= ARRAY_SIZE(kbd->chord.queue))\n			return abort_chord(kbd);"
CQ2 = "		if (kbd->chord.queue_sz >= ARRAY_SIZE(kbd->chord.queue))\n			return abort_chord(kbd);\n\n		if (!pressed) {"
AC = "		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {\n			struct active_chord *ac = &kbd->active_chords[i];\n			if (!ac->active) {"

MUT = [
    ("timeouts", [(K, "	if (kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts)) {", "	if (1) {")]),
    ("timeouts-off", [(K, "kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts)", "kbd->nr_timeouts <= ARRAY_SIZE(kbd->timeouts)")]),
    ("listeners", [(D, LI, "	if (0) {")]),
    ("listeners-off", [(D, LI, "	if (nr_listeners > ARRAY_SIZE(listeners)) {")]),
    ("keep", [(D, "	int keep[ARRAY_SIZE(listeners)];", "	int keep[16];")]),
    ("msg", [(D, MS, "")]),
    ("msg-off", [(D, MS, MS.replace(">=", ">"))]),
    ("scan", [(V, DV, "")]),
    ("scan-off", [(V, DV, DV.replace(">=", ">"))]),
    ("table", [(E, DT, "")]),
    ("table-off", [(E, DT, DT.replace(">=", ">"))]),
    ("pfds", [(E, "struct pollfd pfds[MAX_DEVICES+MAX_AUX_FDS+1];", "struct pollfd pfds[MAX_DEVICES+1];")]),
    ("pfds-off", [(E, "struct pollfd pfds[MAX_DEVICES+MAX_AUX_FDS+1];", "struct pollfd pfds[MAX_DEVICES+MAX_AUX_FDS];")]),
    ("pq", [(K, PQ, "	if (time >= kbd->pending_key.expire) {")]),
    ("pq-off", [(K, PQ, PQ.replace("queue_sz >=", "queue_sz >"))]),
    ("cq1", [(K, CQ1, "		if (!pressed)\n			return abort_chord(kbd);")]),
    ("cq2", [(K, CQ2, "		if (!pressed) {")]),
    ("cq2-off", [(K, CQ2, CQ2.replace("queue_sz >=", "queue_sz >"))]),
    ("ac-off", [(K, AC, AC.replace("i < ARRAY", "i <= ARRAY"))]),
    ("name-size", [(V, "EVIOCGNAME(sizeof(dev->name))", "EVIOCGNAME(1024)")]),
    ("path", [(V, "strncpy(dev->path, path, sizeof(dev->path)-1);\n		dev->path[sizeof(dev->path)-1] = 0;", "strcpy(dev->path, path);")]),
    ("path-size", [(V, "strncpy(dev->path, path, sizeof(dev->path)-1);", "strncpy(dev->path, path, sizeof(struct device));")]),
    ("path-end", [(V, "strncpy(dev->path, path, sizeof(dev->path)-1);\n		dev->path[sizeof(dev->path)-1] = 0;", "strncpy(dev->path, path, sizeof(dev->path));")]),
    ("inotify", [(V, "read(fd, buf, sizeof(buf));", "read(fd, buf, 2*sizeof(buf));")]),
    ("on-layer", [(D, "	char buf[MAX_LAYER_NAME_LEN+3];\n	ssize_t bufsz;", "	char buf[MAX_LAYER_NAME_LEN+3];\n	char copy[8];\n	ssize_t bufsz;\n	strcpy(copy, layer->name);")]),
    ("worker", [(V, "	struct device_worker workers[MAX_DEVICES];", "	struct device_worker workers[MAX_DEVICES/2];")]),
    ("keystate", [(K, "kbd->keystate[code] = pressed;", "kbd->keystate[code + pressed] = pressed;")]) if False else
    ("evloop-removed", [(E, "device_table[device_table_sz++] = dev;", "device_table[++device_table_sz] = dev;")]),
]

REF = [
    ("timeouts-ref", [(K, TM, """	if (kbd->nr_timeouts != ARRAY_SIZE(kbd->timeouts)) {
		long *slot = &kbd->timeouts[kbd->nr_timeouts];
		*slot = timeout;
		kbd->nr_timeouts++;
		return;
	}
""")]),
    ("timeouts-helper", [(K, "static void schedule_timeout(", "static int timeouts_full(struct keyboard *kbd)\n{\n	return kbd->nr_timeouts >= ARRAY_SIZE(kbd->timeouts);\n}\n\nstatic void schedule_timeout("),
                         (K, "	if (kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts)) {", "	if (!timeouts_full(kbd)) {")]),
    ("listeners-ge", [(D, LI, "	if (nr_listeners >= ARRAY_SIZE(listeners)) {")]),
    ("listeners-var", [(D, LI, "	const size_t room = ARRAY_SIZE(listeners) - nr_listeners;\n\n	if (!room) {")]),
    ("keep-inplace", [(D, "			keep[n++] = listeners[i];", "		{\n			keep[n] = listeners[i];\n			n++;\n		}")]),
    ("keep-while", [(D, "	for (i = 0; i < nr_listeners; i++) {\n		ssize_t nw = write(listeners[i], buf, bufsz);\n\n		if (nw == bufsz)\n			keep[n++] = listeners[i];\n		else\n			close(listeners[i]);\n	}",
                     "	i = 0;\n	while (i < nr_listeners) {\n		int fd = listeners[i++];\n		ssize_t nw = write(fd, buf, bufsz);\n\n		if (nw != bufsz) {\n			close(fd);\n			continue;\n		}\n\n		keep[n++] = fd;\n	}")]),
    ("msg-ref", [(D, MS, MS.replace("msg.sz >= sizeof(msg.data)", "msg.sz > sizeof(msg.data)-1"))]),
    ("msg-helper", [(D, "static void handle_client(", "static int fits(const struct ipc_message *msg)\n{\n	return msg->sz < sizeof(msg->data);\n}\n\nstatic void handle_client("), (D, MS, MS.replace("msg.sz >= sizeof(msg.data)", "!fits(&msg)"))]),
    ("scan-cond", [(V, "	while((ent = readdir(dh))) {", "	while(n < MAX_DEVICES && (ent = readdir(dh))) {"), (V, DV, "")]),
    ("scan-ptr", [(V, "			struct device_worker *w = &workers[n++];\n", "			struct device_worker *w = workers + n;\n			n++;\n")]),
    ("table-lt", [(E, DT, ""), (E, "				device_table[device_table_sz++] = dev;\n\n				ev.type = EV_DEV_ADD;\n				ev.dev = &device_table[device_table_sz-1];\n\n				timeout = event_handler(&ev);\n",
                   "				if (device_table_sz < MAX_DEVICES) {\n					device_table[device_table_sz] = dev;\n					ev.dev = &device_table[device_table_sz];\n					device_table_sz++;\n					ev.type = EV_DEV_ADD;\n\n					timeout = event_handler(&ev);\n				} else {\n					keyd_log(\"ERROR: too many devices\\n\");\n					close(dev.fd);\n				}\n")]),
    ("pfds-order", [(E, "struct pollfd pfds[MAX_DEVICES+MAX_AUX_FDS+1];", "struct pollfd pfds[1+MAX_AUX_FDS+MAX_DEVICES];")]),
    ("pfds-ptr", [(E, "		for (i = 0; i < device_table_sz; i++) {\n			pfds[i+1].fd = device_table[i].fd;\n			pfds[i+1].events = POLLIN | POLLERR;\n		}", "		struct pollfd *pfd = pfds + 1;\n		for (i = 0; i < device_table_sz; i++, pfd++) {\n			pfd->fd = device_table[i].fd;\n			pfd->events = POLLIN | POLLERR;\n		}")]),
    ("pq-eq", [(K, PQ, PQ.replace("queue_sz >=", "queue_sz =="))]),
    ("pq-var", [(K, PQ, "	const int full = kbd->pending_key.queue_sz >= ARRAY_SIZE(kbd->pending_key.queue);\n\n	if (full || time >= kbd->pending_key.expire) {")]),
    ("cq-split", [(K, CQ1, "		if (!pressed)\n			return abort_chord(kbd);\n\n		if (kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))\n			return abort_chord(kbd);")]),
    ("cq2-order", [(K, CQ2, "		if (!(kbd->chord.queue_sz < ARRAY_SIZE(kbd->chord.queue)))\n			return abort_chord(kbd);\n\n		if (!pressed) {")]),
    ("ac-while", [(K, AC, AC.replace("for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {", "for (i = 0; i != ARRAY_SIZE(kbd->active_chords); i++) {"))]),
    ("path-snprintf", [(V, "strncpy(dev->path, path, sizeof(dev->path)-1);\n		dev->path[sizeof(dev->path)-1] = 0;", "snprintf(dev->path, sizeof(dev->path), \"%s\", path);")]),
    ("compact-helper", [(E, "			size_t n = 0;\n			for (i = 0; i < device_table_sz; i++) {\n				if (device_table[i].fd != -1)\n					device_table[n++] = device_table[i];\n			}\n			device_table_sz = n;", "			compact();"),
                        (E, "int evloop(int (*event_handler)", "static void compact()\n{\n	size_t i, n = 0;\n	for (i = 0; i < device_table_sz; i++) {\n		if (device_table[i].fd == -1)\n			continue;\n		device_table[n++] = device_table[i];\n	}\n	device_table_sz = n;\n}\n\nint evloop(int (*event_handler)")]),
]
