K, D, I, V, U = "src/keyboard.c", "src/daemon.c", "src/ipc.c", "src/device.c", "src/vkbd/uinput.c"
MUT = [
 ("single-fork", [(K, """	/* A failed fork also ends up here. */
	if (fork())
		_exit(0);

""", "")]),
 ("fork-gt", [(K, "	if (fork())\n		_exit(0);", "	if (fork() < 0)\n		_exit(0);")]),
 ("wait-child", [(K, "	if (fork())\n		_exit(0);", "	pid = fork();\n	if (pid) {\n		waitpid(pid, NULL, 0);\n		_exit(0);\n	}")]),
 ("no-exit", [(K, """	execl("/bin/sh", "/bin/sh", "-c", cmd, NULL);
	_exit(-1);
""", """	execl("/bin/sh", "/bin/sh", "-c", cmd, NULL);
	perror("execl");
""")]),
 ("devnull-return", [(K, """		perror("open");
		_exit(-1);
""", """		perror("open");
		return;
""")]),
 ("no-wait", [(K, "		waitpid(pid, NULL, 0);\n", "")]),
 ("wnohang", [(K, "		waitpid(pid, NULL, 0);\n", "		waitpid(pid, NULL, WNOHANG);\n")]),
 ("stdin", [(K, "	close(0);\n", ""), (K, "	dup2(fd, 0);\n", "")]),
 ("cloexec-dev", [(V, "O_RDWR | O_NONBLOCK | O_CLOEXEC", "O_RDWR | O_NONBLOCK")]),
 ("cloexec-vkbd", [(U, "O_WRONLY | O_NONBLOCK | O_CLOEXEC", "O_WRONLY | O_NONBLOCK")]),
 ("cloexec-lock", [(I, "O_CREAT | O_RDONLY | O_CLOEXEC", "O_CREAT | O_RDONLY")]),
 ("cloexec-con", [(D, "			fcntl(con, F_SETFD, FD_CLOEXEC);\n", "")]),
 ("cloexec-con0", [(D, "F_SETFD, FD_CLOEXEC", "F_SETFD, 0")]),
 ("cloexec-sock", [(I, "SOCK_STREAM | SOCK_CLOEXEC, 0);\n	int lfd", "SOCK_STREAM, 0);\n	int lfd")]),
 ("cloexec-mon", [(V, "IN_NONBLOCK | IN_CLOEXEC", "IN_NONBLOCK")]),
 ("parent-falls", [(K, """	} else if (pid) {
		waitpid(pid, NULL, 0);
		return;
	}
""", """	} else if (pid) {
		if (waitpid(pid, NULL, 0) >= 0)
			return;
	}
""")]),
]
REF = [
 ("loop-dup", [(K, """	close(0);
	close(1);
	close(2);

	dup2(fd, 0);
	dup2(fd, 1);
	dup2(fd, 2);
""", """	int i;
	for (i = 0; i < 3; i++)
		dup2(fd, i);
""")]),
 ("helper", [(K, """static void execute_command(const char *cmd)
{
	int fd;
""", """static void run_detached(const char *cmd)
{
	int fd = open("/dev/null", O_RDWR);

	if (fd < 0) {
		perror("open");
		_exit(-1);
	}

	dup2(fd, 0);
	dup2(fd, 1);
	dup2(fd, 2);

	execl("/bin/sh", "/bin/sh", "-c", cmd, NULL);
	_exit(-1);
}

static void execute_command(const char *cmd)
{
"""), (K, """	fd = open("/dev/null", O_RDWR);

	if (fd < 0) {
		perror("open");
		_exit(-1);
	}

	close(0);
	close(1);
	close(2);

	dup2(fd, 0);
	dup2(fd, 1);
	dup2(fd, 2);

	execl("/bin/sh", "/bin/sh", "-c", cmd, NULL);
	_exit(-1);
}

static void clear_oneshot""", """	run_detached(cmd);
}

static void clear_oneshot""")]),
 ("open-wrap", [(V, "static int device_init(", "static int dev_open(const char *p)\n{\n	int flags = O_RDWR | O_NONBLOCK | O_CLOEXEC;\n	return open(p, flags, 0600);\n}\n\nstatic int device_init("),
   (V, "open(path, O_RDWR | O_NONBLOCK | O_CLOEXEC, 0600)", "dev_open(path)")]),
 ("switch-pid", [(K, """	if (pid < 0) {
		perror("fork");
		return;
	} else if (pid) {
		waitpid(pid, NULL, 0);
		return;
	}
""", """	switch (pid) {
	case -1:
		perror("fork");
		return;
	case 0:
		break;
	default:
		waitpid(pid, NULL, 0);
		return;
	}
""")]),
]
