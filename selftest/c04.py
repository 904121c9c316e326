D, K = "src/daemon.c", "src/keyd.c"
MUT = [
 ("macro-noreturn", [(D, """			send_fail(con, "%s", errstr);
			return;
		}

		macro_execute""", """			send_fail(con, "%s", errstr);
		}

		macro_execute""")]),
 ("input-always", [(D, """		if (input(msg.data, msg.sz, msg.timeout))
			send_fail(con, "%s", errstr);
		else
			send_success(con);""", """		input(msg.data, msg.sz, msg.timeout);
		send_success(con);""")]),
 ("bind-all", [(D, "			if (!kbd_eval(ent->kbd, msg.data))\n				success = 1;", "			success = !kbd_eval(ent->kbd, msg.data);")]),
 ("bind-init", [(D, "		success = 0;\n", "		success = 1;\n")]),
 ("bind-inv", [(D, "			if (!kbd_eval(ent->kbd, msg.data))\n", "			if (kbd_eval(ent->kbd, msg.data))\n")]),
 ("timeout-limit", [(D, "msg.timeout > 1000000", "msg.timeout > 10000000")]),
 ("timeout-macro", [(D, """	if (msg.timeout > 1000000) {
		send_fail(con, "timeout cannot exceed 1000 ms");
		return;
	}
""", """	if (msg.type == IPC_MACRO && msg.timeout > 1000000) {
		send_fail(con, "timeout cannot exceed 1000 ms");
		return;
	}
""")]),
 ("timeout-late", [(D, """	if (msg.timeout > 1000000) {
		send_fail(con, "timeout cannot exceed 1000 ms");
		return;
	}
""", ""), (D, "		send_success(con);\n\n		break;\n	case IPC_INPUT", "		if (msg.timeout > 1000000) send_fail(con, \"x\"); else\n		send_success(con);\n\n		break;\n	case IPC_INPUT")]),
 ("short-recv", [(D, "MSG_WAITALL) != sizeof msg)", "MSG_WAITALL) <= 0)")]),
 ("recv-leak", [(D, "		close(con);\n		return;\n	}\n\n	if (msg.sz", "		return;\n	}\n\n	if (msg.sz")]),
 ("double-close", [(D, "		send_success(con);\n\n		break;\n	case IPC_INPUT", "		send_success(con);\n		close(con);\n\n		break;\n	case IPC_INPUT")]),
 ("success-noclose", [(D, "	if (write(con, &msg, sizeof msg) < 0)\n		perror(\"write\");\n	close(con);\n}\n\nstatic void send_fail", "	if (write(con, &msg, sizeof msg) < 0) {\n		perror(\"write\");\n		return;\n	}\n	close(con);\n}\n\nstatic void send_fail")]),
 ("fail-type", [(D, "	msg.type = IPC_FAIL;\n", "")]),
 ("unknown-fall", [(D, "		break;\n	default:\n		send_fail(con, \"Unknown command\");", "		break;\n	default:\n		reload();\n		send_fail(con, \"Unknown command\");")]),
 ("unknown-silent", [(D, "		send_fail(con, \"Unknown command\");", "		close(con);")]),
 ("reload-break", [(D, "		reload();\n		send_success(con);\n		break;", "		reload();\n		send_success(con);")]),
 ("listener-full-leak", [(D, "			perror(\"write\");\n\n		close(con);\n		return;\n	}\n\n	setsockopt", "			perror(\"write\");\n\n		return;\n	}\n\n	setsockopt")]),
 ("listener-fail", [(D, "fail:\n	close(con);\n	return;", "fail:\n	listeners[nr_listeners++] = con;\n	close(con);\n	return;")]),
 ("macro-order", [(D, "		macro_execute(send_key, &macro, msg.timeout);\n		send_success(con);", "		send_success(con);\n		macro_execute(send_key, &macro, msg.timeout);")]),
 ("reload-order", [(D, "		reload();\n		send_success(con);", "		send_success(con);\n		reload();")]),
 ("size-fall", [(D, "		send_fail(con, \"maximum message size exceeded\");\n		return;", "		send_fail(con, \"maximum message size exceeded\");\n		msg.sz = 0;")]),
 ("client", [(K, "	return msg.type == IPC_FAIL;\n\n	return type == IPC_FAIL;", "	return type == IPC_FAIL;")]),
 ("short-reply", [(D, "write(con, &msg, sizeof msg) < 0)\n		perror(\"write\");\n	close(con);\n\n	va_end", "write(con, &msg, sizeof msg - sizeof msg.data + msg.sz) < 0)\n		perror(\"write\");\n	close(con);\n\n	va_end")]),
]
