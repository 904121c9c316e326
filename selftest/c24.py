C, D, V, E, I, K, U = "src/config.c", "src/daemon.c", "src/device.c", "src/evloop.c", "src/ipc.c", "src/keyd.c", "src/vkbd/uinput.c"
MUT = [
    ("file-ok", [(C, "\tfclose(fh);\n\n\tbuf[sz] = 0;", "\tbuf[sz] = 0;")]),
    ("file-fail", [(C, "fail:\n\tfclose(fh);\n\treturn NULL;", "fail:\n\treturn NULL;")]),
    ("file-fail2", [(C, '\t\t\terr("maximum file size exceed (%d)", MAX_FILE_SZ);\n\t\t\tgoto fail;', '\t\t\terr("maximum file size exceed (%d)", MAX_FILE_SZ);\n\t\t\treturn NULL;')]),
    ("include", [(C, "\t\t\t\tclose(fd);\n", "")]),
    ("include-empty", [(C, "\t\t\t\tclose(fd);\n", "\t\t\t\tif (!n)\n\t\t\t\t\tclose(fd);\n")]),
    ("include-0", [(C, "\t\t\tif (fd < 0) {\n\t\t\t\twarn(\"failed to include", "\t\t\tif (fd <= 0) {\n\t\t\t\twarn(\"failed to include")]),
    ("dir", [(D, "\tclosedir(dh);\n", "")]),
    ("dir-early", [(D, "\t\tif (dirent->d_type == DT_DIR)\n\t\t\tcontinue;\n\n\t\tlen", "\t\tif (!dirent->d_name[0])\n\t\t\treturn;\n\t\tif (dirent->d_type == DT_DIR)\n\t\t\tcontinue;\n\n\t\tlen")]),
    ("scan-dir", [(V, "\tclosedir(dh);\n", "")]),
    ("scan-dir-early", [(V, "\tndevs = 0;\n\tfor(i", "\tif (!n)\n\t\treturn 0;\n\tndevs = 0;\n\tfor(i")]),
    ("init-fail", [(V, "fail:\n\tclose(fd);\n", "fail:\n")]),
    ("init-name", [(V, '\t\tkeyd_log("ERROR: could not fetch device name of %s\\n", dev->path);\n\t\tgoto fail;', '\t\tkeyd_log("ERROR: could not fetch device name of %s\\n", dev->path);\n\t\treturn -1;')]),
    ("init-abs", [(V, '\t\tif (ioctl(fd, EVIOCGABS(ABS_Y), &absinfo) < 0) {\n\t\t\tperror("ioctl");\n\t\t\tgoto fail;', '\t\tif (ioctl(fd, EVIOCGABS(ABS_Y), &absinfo) < 0) {\n\t\t\tperror("ioctl");\n\t\t\treturn -1;')]),
    ("init-cap", [(V, "\t\treturn 0;\n\t}\n\nfail:\n\tclose(fd);\n\treturn -1;", "\t\treturn 0;\n\t}\n\treturn -1;\n\nfail:\n\tclose(fd);\n\treturn -1;")]),
    ("init-both", [(V, "\t\tdev->is_virtual = info.vendor == 0x0FAC;\n\t\treturn 0;", "\t\tdev->is_virtual = info.vendor == 0x0FAC;\n\t\tif (dev->is_virtual)\n\t\t\tgoto fail;\n\t\treturn 0;"), (V, "fail:\n\tclose(fd);\n", "fail:\n\tif (!capabilities)\n\t\tclose(fd);\n")]),
    ("init-closed", [(V, "\t\tdev->is_virtual = info.vendor == 0x0FAC;\n\t\treturn 0;", "\t\tdev->is_virtual = info.vendor == 0x0FAC;\n\t\tif (dev->is_virtual)\n\t\t\tclose(fd);\n\t\treturn 0;")]),
    ("worker", [(V, "\treturn &w->dev;\n", "\tif (w->dev.is_virtual)\n\t\treturn NULL;\n\treturn &w->dev;\n")]),
    ("scan-skip", [(V, "\t\tif (d)\n\t\t\tdevices", "\t\tif (d && !d->is_virtual)\n\t\t\tdevices")]),
    ("read-noclose", [(V, "\t\t\tclose(dev->fd);\n", "")]),
    ("read-keep", [(V, "\t\t\tdev->fd = -1;\n", ""), (E, "\t\t\t\t\t\tdevice_table[i].fd = -1;\n", "")]),
    ("evloop-close-twice", [(E, "\t\t\t\t\t\tdevice_table[i].fd = -1;\n", "\t\t\t\t\t\tclose(device_table[i].fd);\n"), (V, "\t\t\tdev->fd = -1;\n", "")]),
    ("surplus", [(E, "\t\t\t\t\tclose(dev.fd);\n", "")]),
    ("surplus-kept", [(E, "\t\t\t\t\tclose(dev.fd);\n\t\t\t\t\tcontinue;\n", "\t\t\t\t\tclose(dev.fd);\n")]),
    ("uncounted", [(E, "\t\t\t\tdevice_table[device_table_sz++] = dev;\n", "\t\t\t\tdevice_table[device_table_sz] = dev;\n\t\t\t\tif (!dev.is_virtual)\n\t\t\t\t\tdevice_table_sz++;\n")]),
    ("compact-virtual", [(E, "\t\t\t\tif (device_table[i].fd != -1)\n", "\t\t\t\tif (device_table[i].fd != -1 && !device_table[i].is_virtual)\n")]),
    ("compact-start", [(E, "\t\t\tsize_t n = 0;\n\t\t\tfor (i = 0;", "\t\t\tsize_t n = 0;\n\t\t\tfor (i = 1;")]),
    ("compact-gap", [(E, "\t\t\t\tif (device_table[i].fd != -1)\n\t\t\t\t\tdevice_table[n++] = device_table[i];", "\t\t\t\tif (device_table[i].fd != -1)\n\t\t\t\t\tdevice_table[n] = device_table[i];\n\t\t\t\tn++;")]),
    ("compact-bound", [(E, "for (i = 0; i < device_table_sz; i++) {\n\t\t\t\tif (device_table[i].fd != -1)", "for (i = 0; i < device_table_sz-1; i++) {\n\t\t\t\tif (device_table[i].fd != -1)")]),
    ("compact-break", [(E, "\t\t\t\t\tdevice_table[n++] = device_table[i];", "\t\t\t\t\tdevice_table[n++] = device_table[i];\n\t\t\t\telse if (n)\n\t\t\t\t\tbreak;")]),
    ("send-success", [(D, "\tmsg.sz = 0;\n\n\tif (write(con, &msg, sizeof msg) < 0)\n\t\tperror(\"write\");\n\tclose(con);", "\tmsg.sz = 0;\n\n\tif (write(con, &msg, sizeof msg) < 0) {\n\t\tperror(\"write\");\n\t\treturn;\n\t}\n\tclose(con);")]),
    ("send-fail", [(D, "\tif (write(con, &msg, sizeof msg) < 0)\n\t\tperror(\"write\");\n\tclose(con);\n\n\tva_end", "\tif (write(con, &msg, sizeof msg) < 0)\n\t\tperror(\"write\");\n\n\tva_end")]),
    ("client-short", [(D, "\tif (recv(con, &msg, sizeof msg, MSG_WAITALL) != sizeof msg) {\n\t\tclose(con);", "\tif (recv(con, &msg, sizeof msg, MSG_WAITALL) != sizeof msg) {")]),
    ("client-double", [(D, "\t\treload();\n\t\tsend_success(con);", "\t\treload();\n\t\tsend_success(con);\n\t\tclose(con);")]),
    ("client-default", [(D, 'send_fail(con, "timeout cannot exceed 1000 ms");\n\t\treturn;', 'send_fail(con, "timeout cannot exceed 1000 ms");')]),
    ("listen-full", [(D, "\t\t\tperror(\"write\");\n\n\t\tclose(con);\n\t\treturn;", "\t\t\tperror(\"write\");\n\n\t\treturn;")]),
    ("listen-fail", [(D, "fail:\n\tclose(con);\n\treturn;", "fail:\n\treturn;")]),
    ("listener-gone", [(D, "\t\telse\n\t\t\tclose(listeners[i]);", "")]),
    ("exec", [(K, "\tclose(con);\n", "")]),
    ("exec-quiet", [(K, "\txread(con, &msg, sizeof msg);\n\tclose(con);\n", "\txread(con, &msg, sizeof msg);\n\tif (msg.sz)\n\t\tclose(con);\n")]),
    ("exec-early", [(K, "\txread(con, &msg, sizeof msg);\n\tclose(con);\n", "\tclose(con);\n\txread(con, &msg, sizeof msg);\n")]),
    ("vkbd-pfd", [(U, "\t\tclose(vkbd->pfd);\n", "")]),
    ("vkbd-twice", [(U, "\t\tclose(vkbd->pfd);\n", "\t\tclose(vkbd->fd);\n")]),
    ("accept-busy", [(D, "\t\t\tfcntl(con, F_SETFD, FD_CLOEXEC);\n", "\t\t\tif (fcntl(con, F_SETFD, FD_CLOEXEC) < 0)\n\t\t\t\tbreak;\n")]),
    ("shell-return", [("src/keyboard.c", '\tif (fork())\n\t\t_exit(0);\n\n\tfd = open("/dev/null", O_RDWR);\n', '\tfd = open("/dev/null", O_RDWR);\n\tif (fork())\n\t\treturn;\n')]),
    ("monitor-open", [(V, "int device_ungrab(struct device *dev)\n{\n", "int device_ungrab(struct device *dev)\n{\n\tif (dev->fd >= 0 && open(dev->path, O_RDONLY) < 0)\n\t\treturn -1;\n")]),
]
REF = [
    ("init-ret", [(V, "\tif ((fd = open(path, O_RDWR | O_NONBLOCK | O_CLOEXEC, 0600)) < 0) {", "\tfd = open(path, O_RDWR | O_NONBLOCK | O_CLOEXEC, 0600);\n\tif (fd == -1) {")]),
    ("close-helper", [(V, "static int device_init(", "static void shut(int fd)\n{\n\tclose(fd);\n}\n\nstatic int device_init("), (V, "fail:\n\tclose(fd);", "fail:\n\tshut(fd);")]),
    ("compact-while", [(E, "\t\t\tfor (i = 0; i < device_table_sz; i++) {\n\t\t\t\tif (device_table[i].fd != -1)\n\t\t\t\t\tdevice_table[n++] = device_table[i];\n\t\t\t}\n", "\t\t\ti = 0;\n\t\t\twhile (i < device_table_sz) {\n\t\t\t\tif (device_table[i].fd >= 0) {\n\t\t\t\t\tdevice_table[n] = device_table[i];\n\t\t\t\t\tn++;\n\t\t\t\t}\n\t\t\t\ti++;\n\t\t\t}\n")]),
    ("compact-helper", [(E, "\t\t\tsize_t n = 0;\n\t\t\tfor (i = 0; i < device_table_sz; i++) {\n\t\t\t\tif (device_table[i].fd != -1)\n\t\t\t\t\tdevice_table[n++] = device_table[i];\n\t\t\t}\n\t\t\tdevice_table_sz = n;\n", "\t\t\tcompact();\n"),
                        (E, "int evloop(int (*event_handler)", "static void compact()\n{\n\tsize_t i, n = 0;\n\tfor (i = 0; i < device_table_sz; i++) {\n\t\tif (device_table[i].fd == -1)\n\t\t\tcontinue;\n\t\tdevice_table[n++] = device_table[i];\n\t}\n\tdevice_table_sz = n;\n}\n\nint evloop(int (*event_handler)")]),
    ("add-order", [(E, "\t\t\t\tdevice_table[device_table_sz++] = dev;\n", "\t\t\t\tdevice_table[device_table_sz] = dev;\n\t\t\t\tdevice_table_sz += 1;\n")]),
    ("file-single-exit", [(C, "\tfclose(fh);\n\n\tbuf[sz] = 0;\n\treturn buf;\n\nfail:\n\tfclose(fh);\n\treturn NULL;", "\tbuf[sz] = 0;\n\tret = buf;\n\nfail:\n\tfclose(fh);\n\treturn ret;"), (C, "\tint sz = 0;\n\n\tFILE *fh", "\tint sz = 0;\n\tchar *ret = NULL;\n\n\tFILE *fh")]),
    ("include-helper", [(C, "\t\t\t\tint n;\n\t\t\t\twhile ((n = read(fd, buf+sz, sizeof(buf)-sz-1)) > 0)\n\t\t\t\t\tsz += n;\n\t\t\t\tclose(fd);\n", "\t\t\t\tsz = slurp(fd, buf, sizeof(buf), sz);\n"),
                        (C, "static char *read_file(", "static int slurp(int fd, char *buf, size_t bsz, int sz)\n{\n\tint n;\n\twhile ((n = read(fd, buf+sz, bsz-sz-1)) > 0)\n\t\tsz += n;\n\tclose(fd);\n\treturn sz;\n}\n\nstatic char *read_file(")]),
    ("conn-helper", [(D, "\t\t\tint con = accept(ipcfd, NULL, 0);\n\t\t\tif (con < 0) {\n\t\t\t\tperror(\"accept\");\n\t\t\t\tbreak;\n\t\t\t}\n\n\t\t\tfcntl(con, F_SETFD, FD_CLOEXEC);\n\n\t\t\thandle_client(con);\n", "\t\t\tint con = next_client();\n\t\t\tif (con >= 0)\n\t\t\t\thandle_client(con);\n"),
                     (D, "static int event_handler(", "static int next_client(void)\n{\n\tint con = accept(ipcfd, NULL, 0);\n\tif (con < 0) {\n\t\tperror(\"accept\");\n\t\treturn -1;\n\t}\n\tfcntl(con, F_SETFD, FD_CLOEXEC);\n\treturn con;\n}\n\nstatic int event_handler(")]),
    ("worker-flip", [(V, "\tif (device_init(w->path, &w->dev) < 0)\n\t\treturn NULL;\n\n\treturn &w->dev;\n", "\treturn device_init(w->path, &w->dev) == 0 ? &w->dev : NULL;\n")]),
    ("scan-ptr", [(V, "\t\tif (d)\n\t\t\tdevices[ndevs++] = workers[i].dev;", "\t\tif (!d)\n\t\t\tcontinue;\n\t\tdevices[ndevs] = *d;\n\t\tndevs++;")]),
    ("read-order", [(V, "\t\t\tclose(dev->fd);\n\t\t\tdev->fd = -1;\n", "\t\t\tint fd = dev->fd;\n\t\t\tdev->fd = -1;\n\t\t\tclose(fd);\n")]),
    ("vkbd-guard", [(U, "\t\tclose(vkbd->fd);\n\t\tclose(vkbd->pfd);\n", "\t\tif (vkbd->pfd >= 0)\n\t\t\tclose(vkbd->pfd);\n\t\tclose(vkbd->fd);\n")]),
]
