I, D, K = "src/ipc.c", "src/daemon.c", "src/keyboard.c"
LOCK = """	if (flock(lfd, LOCK_EX | LOCK_NB))
		return -1;

	unlink(SOCKET_PATH);
"""
MUT = [
 ("unlink-first", [(I, LOCK, """	unlink(SOCKET_PATH);
	if (flock(lfd, LOCK_EX | LOCK_NB))
		return -1;

""")]),
 ("shared-lock", [(I, "LOCK_EX | LOCK_NB", "LOCK_SH | LOCK_NB")]),
 ("blocking", [(I, "LOCK_EX | LOCK_NB", "LOCK_EX")]),
 ("lt0", [(I, "	if (flock(lfd, LOCK_EX | LOCK_NB))\n", "	if (flock(lfd, LOCK_EX | LOCK_NB) > 0)\n")]),
 ("close-lock", [(I, "	chmod(SOCKET_PATH, 0660);\n", "	chmod(SOCKET_PATH, 0660);\n	close(lfd);\n")]),
 ("mode", [(I, "0660);\n", "0666);\n")]),
 ("pid-lock", [(I, '"%s.lock", SOCKET_PATH);', '"%s.%d.lock", SOCKET_PATH, (int)getuid());')]),
 ("no-die", [(D, "	if (ipcfd < 0)\n		die(", "	if (ipcfd < -1)\n		die(")]),
 ("setgid-late", [(I, "	chgid();\n\n	if (sd", "	if (sd"), (I, "	chmod(SOCKET_PATH, 0660);\n", "	chgid();\n	chmod(SOCKET_PATH, 0660);\n")]),
 ("no-listen", [(I, "	if (listen(sd, 20) < 0) {", "	if (listen(sd, 20) > 0) {")]),
 ("main-unlink", [("src/keyd.c", "	run_daemon(argc, argv);\n", "	unlink(SOCKET_PATH);\n	run_daemon(argc, argv);\n")]),
]
REF = [
 ("umask", [(I, "	unlink(SOCKET_PATH);\n", "	umask(0117);\n	unlink(SOCKET_PATH);\n")]),
 ("ne0", [(I, "	if (flock(lfd, LOCK_EX | LOCK_NB))\n", "	if (flock(lfd, LOCK_EX | LOCK_NB) < 0)\n")]),
]
