D = "src/daemon.c"
V = "src/device.c"
U = "src/util.c"
K = "src/keyboard.c"
L = "src/evloop.c"
C = "src/config.c"
M = "src/keyd.c"
I = "src/ini.c"
X = "src/macro.c"
RECV = """	if (recv(con, &msg, sizeof msg, MSG_WAITALL) != sizeof msg) {
		close(con);
		return;
	}
"""
RCV = "	setsockopt(con, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);\n"
SND = "	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);\n\n	if (recv"
ACC = """			int con = accept(ipcfd, NULL, 0);
			if (con < 0) {
				perror("accept");
				break;
			}
"""
MUT = [
    ("xread", [(D, RECV, "	xread(con, &msg, sizeof msg);\n")]),
    ("xread-u", [(D, RCV, ""), (D, RECV, "	xread(con, &msg, sizeof msg);\n")]),
    ("accept-die", [(D, ACC, "			int con = accept(ipcfd, NULL, 0);\n			if (con < 0) {\n				perror(\"accept\");\n				exit(-1);\n			}\n")]),
    ("no-rcv", [(D, RCV, "")]),
    ("no-snd", [(D, SND, "\n	if (recv")]),
    ("tv-zero", [(D, "struct timeval tv = { .tv_sec = 1 };", "struct timeval tv = { 0 };")]),
    ("rcv-late", [(D, RCV, ""), (D, RECV, RECV + RCV)]),
    ("read-loop", [(D, RECV, """	size_t got = 0;
	while (got < sizeof msg) {
		ssize_t n = read(con, (char*)&msg + got, sizeof msg - got);
		if (n < 0 && errno != EAGAIN)
			break;
		if (n > 0)
			got += n;
	}
	if (got != sizeof msg) {
		close(con);
		return;
	}
"""), (D, '#include "keyd.h"', '#include "keyd.h"\n#include <errno.h>')]),
    ("read-loop-eof", [(D, RECV, """	size_t got = 0;
	while (got < sizeof msg) {
		ssize_t n = read(con, (char*)&msg + got, sizeof msg - got);
		if (n < 0) {
			close(con);
			return;
		}
		got += n;
	}
""")]),
    ("fail-xwrite", [(D, """	if (write(con, &msg, sizeof msg) < 0)
		perror("write");
	close(con);

	va_end(args);""", """	xwrite(con, &msg, sizeof msg);
	close(con);

	va_end(args);""")]),
    ("success-xwrite", [(D, """	msg.sz = 0;

	if (write(con, &msg, sizeof msg) < 0)
		perror("write");""", """	msg.sz = 0;

	xwrite(con, &msg, sizeof msg);""")]),
    ("size-assert", [(D, "	msg.data[msg.sz] = 0;\n\n	if (msg.timeout", "	assert(msg.sz < sizeof(msg.data));\n	msg.data[msg.sz] = 0;\n\n	if (msg.timeout"), (D, "	if (msg.sz >= sizeof(msg.data)) {\n		send_fail(con, \"maximum message size exceeded\");\n		return;\n	}\n", ""), (D, '#include "keyd.h"', '#include "keyd.h"\n#include <assert.h>')]),
    ("type-die", [(D, 'send_fail(con, "Unknown command");', 'die("unknown command");')]),
    ("macro-die", [(D, "		if (macro_parse(msg.data, &macro)) {\n			send_fail", "		if (macro_parse(msg.data, &macro)) {\n			if (msg.sz > 4000)\n				abort();\n			send_fail")]),
    ("listener-die", [(D, '		char s[] = "Max listeners exceeded\\n";', '		die("too many listeners");\n		char s[] = "Max listeners exceeded\\n";')]),
    ("listener-no-snd", [(D, "	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);\n\n	if (active_kbd)", "	if (active_kbd)"), (D, SND, "\n	if (recv")]),
    ("listener-unlimited", [(D, "	tv.tv_usec = 50000;", "	tv.tv_usec = 0;")]),
    ("sigpipe", [(M, "	signal(SIGPIPE, SIG_IGN);\n", "")]),
    ("sigpipe-dfl", [(M, "	signal(SIGPIPE, SIG_IGN);\n", "	signal(SIGPIPE, SIG_DFL);\n")]),
    ("wait-single", [(K, "	if (fork())\n		_exit(0);\n", "")]),
    ("exec-parent", [(K, "	pid = fork();", "	pid = 0;"), (K, "	if (fork())\n		_exit(0);\n", "")]),
    ("system", [(K, "	pid = fork();\n\n	if (pid < 0) {", "	pid = fork();\n\n	if (pid > 0)\n		system(\"true\");\n\n	if (pid < 0) {")]),
    ("block-dev", [(V, "O_RDWR | O_NONBLOCK | O_CLOEXEC", "O_RDWR | O_CLOEXEC")]),
    ("block-mon", [(V, "inotify_init1(IN_NONBLOCK | IN_CLOEXEC)", "inotify_init1(IN_CLOEXEC)")]),
    ("panic-two", [(L, "if (backspace && enter && escape)", "if (backspace && enter)")]),
    ("panic-or", [(L, "if (backspace && enter && escape)", "if ((backspace && enter) || escape)")]),
    ("panic-any", [(L, "	case KEYD_ESC:\n		escape = pressed;", "	default:\n		escape = pressed;")]),
    ("read-assert", [(V, "	if (read(dev->fd, &ev, sizeof(ev)) < 0) {", "	ssize_t got = read(dev->fd, &ev, sizeof(ev));\n	assert(got);\n	if (got < 0) {")]),
    ("read-die", [(V, "		if (errno == EAGAIN) {\n			return NULL;\n		} else {", "		if (errno == EAGAIN) {\n			return NULL;\n		} else {\n			if (errno != ENODEV)\n				die(\"read failed\");")]),
    ("led-die", [(V, """	if (write(dev->fd, &ev, sizeof ev) < 0)
		perror("write");""", """	xwrite(dev->fd, &ev, sizeof ev);""")]),
    ("grab-die", [(V, "		perror(\"EVIOCGRAB\");\n		return -1;", "		perror(\"EVIOCGRAB\");\n		exit(-1);")]),
    ("mon-spin", [(V, "			if (buf_sz == -1) {\n				buf_sz = 0;\n				return -1;\n			}", "			if (buf_sz == -1) {\n				buf_sz = 0;\n				continue;\n			}")]),
    ("chord-full", [(K, "		if (kbd->chord.queue_sz >= ARRAY_SIZE(kbd->chord.queue))\n			return abort_chord(kbd);", "		assert(kbd->chord.queue_sz < ARRAY_SIZE(kbd->chord.queue));")]),
    ("config-die", [(C, '		err("max layers (%d) exceeded"', '		die("max layers (%d) exceeded"')]),
    ("config-abort", [(C, '	return macro_parse(ptr, macro) == 0 ? 0 : 1;', '	if (macro_parse(ptr, macro))\n		abort();\n	return 0;')]),
    ("div-min", [(V, "			if (dev->_maxx == dev->_minx)\n", "			if (dev->_maxx == 0)\n")]),
    ("div-none", [(V, "			if (dev->_maxy == dev->_miny)\n				return NULL;\n", "")]),
    ("div-scroll", [(K, "	switch (d->op) {\n		int idx;", "	if (code % kbd->config.macro_repeat_timeout == 0)\n		dbg(\"repeat\");\n\n	switch (d->op) {\n		int idx;")]),
    ("layer-loop", [(D, "	for (i = 0; i < nr_listeners; i++) {\n		ssize_t nw = write(listeners[i], buf, bufsz);\n", "	for (i = 0; i < nr_listeners; i++) {\n		ssize_t nw;\n		while ((nw = write(listeners[i], buf, bufsz)) != bufsz)\n			;\n")]),
    ("opendir-fork", [(D, "		if (dirent->d_type == DT_DIR)\n			continue;", "		if (dirent->d_type == DT_DIR)\n			exit(1);")]),
    ("flag-wait", [(D, "		if (timeout)\n			usleep(timeout);", "		if (timeout)\n			getchar();")]),
    ("endless", [(D, "	default:\n		send_fail(con, \"Unknown command\");\n		break;", "	default:\n		send_fail(con, \"Unknown command\");\n		for (;;)\n			usleep(10);\n		break;")]),
    ("ipc-exit", [(D, "			handle_client(con);", "			handle_client(con);\n			if (ev->timestamp < 0)\n				exit(0);")]),
    ("evloop-poll", [(L, "		poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? timeout : -1);", "		if (poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? timeout : -1) < 0)\n			die(\"poll\");")]),
    ("spin-input", [(D, """				err("ERROR: could not find code for \\"%.*s\\"", csz, buf);
				return -1;
""", """				err("ERROR: could not find code for \\"%.*s\\"", csz, buf);
				continue;
""")]),
    ("spin-macro", [(X, "				} else if ((xcode = unicode_lookup_index(codepoint)) >= 0)\n					ADD_ENTRY(MACRO_UNICODE, xcode);\n", "				} else {\n					xcode = unicode_lookup_index(codepoint);\n					if (xcode < 0)\n						continue;\n					ADD_ENTRY(MACRO_UNICODE, xcode);\n				}\n")]),
    ("spin-ini", [(I, "		ln++;\n\n		line = s;\n		s = strchr(s, '\\n');", "		ln++;\n\n		line = s;\n		if (line[0] == '#' && line[1] == '!')\n			continue;\n		s = strchr(s, '\\n');")]) if False else
    ("spin-configs", [(D, "		for (ent = configs; ent; ent = ent->next) {\n			if (!kbd_eval(ent->kbd, msg.data))\n				success = 1;\n		}", "		for (ent = configs; ent;) {\n			if (!ent->kbd)\n				continue;\n			if (!kbd_eval(ent->kbd, msg.data))\n				success = 1;\n			ent = ent->next;\n		}")]),
    ("spin-scan", [(K, "		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {\n			struct active_chord *ac = &kbd->active_chords[i];\n			uint8_t chord_code = KEYD_CHORD_1 + i;\n", "		for (i = 0; i < ARRAY_SIZE(kbd->active_chords);) {\n			struct active_chord *ac = &kbd->active_chords[i];\n			uint8_t chord_code = KEYD_CHORD_1 + i;\n			if (!ac->active)\n				continue;\n			i++;\n")]),
    ("spin-trail", [(D, "		while (msg.sz && msg.data[msg.sz-1] == '\\n')\n			msg.data[--msg.sz] = 0;", "		while (msg.sz && (msg.data[msg.sz-1] == '\\n' || msg.data[msg.sz-1] == ' ')) {\n			if (msg.data[msg.sz-1] == ' ')\n				continue;\n			msg.data[--msg.sz] = 0;\n		}")]),
]
