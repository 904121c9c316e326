D, U, DM, E = "src/device.c", "src/vkbd/uinput.c", "src/daemon.c", "src/evloop.c"
MUT = [
 ("repeat-passed", [(D, "if (ev.value == 2)\n\t\t\treturn NULL;", "")]),
 ("repeat-only-ext", [(D, "if (ev.value == 2)", "if (ev.value == 2 && ev.code < 0x200)")]),
 ("boundary-256", [(D, "if (ev.code >= 256 ||", "if (ev.code > 256 ||")]),
 ("boundary-0x2", [(D, "if (ev.code >= 256 ||", "if ((ev.code >= 256 && ev.code < 0x2a0) ||")]),
 ("prog", [(D, "ev.code == KEY_PROG3 || ev.code == KEY_PROG4", "ev.code == KEY_PROG3")]),
 ("swap-btn-in", [(D, "case BTN_SIDE:    ev.code = KEYD_MOUSE_1; break;", "case BTN_SIDE:    ev.code = KEYD_MOUSE_2; break;"), (D, "case BTN_EXTRA:   ev.code = KEYD_MOUSE_2; break;", "case BTN_EXTRA:   ev.code = KEYD_MOUSE_1; break;")]),
 ("swap-btn-both", [(D, "case BTN_SIDE:    ev.code = KEYD_MOUSE_1; break;", "case BTN_SIDE:    ev.code = KEYD_MOUSE_2; break;"), (D, "case BTN_EXTRA:   ev.code = KEYD_MOUSE_2; break;", "case BTN_EXTRA:   ev.code = KEYD_MOUSE_1; break;"),
   (U, "case KEYD_MOUSE_1:\t ev.code = BTN_SIDE; break;", "case KEYD_MOUSE_1:\t ev.code = BTN_EXTRA; break;"), (U, "case KEYD_MOUSE_2:\t ev.code = BTN_EXTRA; break;", "case KEYD_MOUSE_2:\t ev.code = BTN_SIDE; break;")]),
 ("btn-ignored", [(D, "case BTN_FORWARD: ev.code = KEYD_MOUSE_FORWARD; break;", "case BTN_FORWARD: return NULL;")]),
 ("out-btn", [(U, "case KEYD_MOUSE_FORWARD: ev.code = BTN_FORWARD; break;", "case KEYD_MOUSE_FORWARD: ev.code = BTN_BACK; break;")]),
 ("out-zoom-btn", [(U, "ev.code = KEY_ZOOM; is_btn = 0; break;", "ev.code = KEY_ZOOM; break;")]),
 ("out-missing", [(U, "case KEYD_MOUSE_BACK:\t ev.code = BTN_BACK; break;\n", "")]),
 ("pressed-const", [(D, "devev.pressed = ev.value;\n\n\t\tdbg2", "devev.pressed = 1;\n\n\t\tdbg2")]),
 ("pressed-inv", [(U, "ev.value = state;", "ev.value = !state;")]),
 ("no-syn", [(U, "\tev.type = EV_SYN;\n\tev.code = 0;\n\tev.value = 0;\n\n\n\txwrite(fd, &ev, sizeof(ev));", "")]),
 ("syn-code", [(U, "\tev.type = EV_SYN;\n\tev.code = 0;\n\tev.value = 0;\n\n\n", "\tev.type = EV_SYN;\n\tev.value = 0;\n\n\n")]),
 ("declare-btn", [(U, "code <= BTN_TASK", "code < BTN_FORWARD")]),
 ("declare-255", [(U, "for (code = 0; code < 256; code++) {\n\t\tif (keycode_table", "for (code = 0; code < 248; code++) {\n\t\tif (keycode_table")]),
 ("declare-alt", [(U, "if (keycode_table[code].name) {", "if (keycode_table[code].name && !keycode_table[code].shifted_name) {")]),
 ("declare-evkey", [(U, "\tioctl(fd, UI_SET_EVBIT, EV_KEY);\n", "")]),
 ("declare-voice", [(U, "ioctl(fd, UI_SET_KEYBIT, KEY_VOICECOMMAND)", "ioctl(fd, UI_SET_KEYBIT, KEYD_VOICECOMMAND)")]),
 ("declare-late", [(U, "\tfor (code = BTN_LEFT; code <= BTN_TASK; code++)\n\t\tioctl(fd, UI_SET_KEYBIT, code);\n", ""), (U, "\tioctl(fd, UI_DEV_CREATE);\n\n\treturn fd;", "\tioctl(fd, UI_DEV_CREATE);\n\tfor (code = BTN_LEFT; code <= BTN_TASK; code++)\n\t\tioctl(fd, UI_SET_KEYBIT, code);\n\n\treturn fd;")]),
 ("swap-fds", [(U, "vkbd->fd = create_virtual_keyboard(name);\n\tvkbd->pfd = create_virtual_pointer(\"keyd virtual pointer\");", "vkbd->pfd = create_virtual_keyboard(name);\n\tvkbd->fd = create_virtual_pointer(\"keyd virtual pointer\");")]),
 ("handler-code", [(DM, "kev.code = ev->devev->code;\n\t\t\t\tkev.pressed", "kev.code = ev->devev->code & 0x7f;\n\t\t\t\tkev.pressed")]),
 ("handler-pressed", [(DM, "kev.pressed = ev->devev->pressed;\n", "kev.pressed = 1;\n")]),
 ("handler-mouse-skip", [(DM, "timeout = min_timeout(timeout, kbd_process_events(kbd, &kev, 1));\n\t\t\t\tbreak;\n\t\t\tcase DEV_MOUSE_MOVE:", "if (kev.code != KEYD_FN)\n\t\t\t\t\ttimeout = min_timeout(timeout, kbd_process_events(kbd, &kev, 1));\n\t\t\t\tbreak;\n\t\t\tcase DEV_MOUSE_MOVE:")]),
 ("handler-active", [(DM, "timeout = min_timeout(timeout, kbd_process_events(kbd, &kev, 1));", "timeout = min_timeout(timeout, kbd_process_events(configs->kbd, &kev, 1));")]),
 ("loop-dev", [(E, "ev.devev = devev;\n\t\t\t\t\t\tev.dev = &device_table[i];", "ev.devev = devev;\n\t\t\t\t\t\tev.dev = &device_table[0];")]),
 ("loop-skip", [(E, "timeout = event_handler(&ev);\n\t\t\t\t\t}\n\t\t\t\t}", "if (!removed)\n\t\t\t\t\t\t\ttimeout = event_handler(&ev);\n\t\t\t\t\t}\n\t\t\t\t}")]),
 ("loop-twice", [(E, "timeout = event_handler(&ev);\n\t\t\t\t\t}\n\t\t\t\t}", "timeout = event_handler(&ev);\n\t\t\t\t\t\tif (timeout == 0)\n\t\t\t\t\t\t\ttimeout = event_handler(&ev);\n\t\t\t\t\t}\n\t\t\t\t}")]),
 ("send-mask", [(DM, "vkbd_send_key(vkbd, code, state);\n\t\t\tbreak;\n\t}", "vkbd_send_key(vkbd, code, keystate[code] && state);\n\t\t\tbreak;\n\t\tcase KEYD_F24:\n\t\t\tbreak;\n\t}")]),
 ("send-swap", [(DM, "vkbd_send_key(vkbd, code, state);\n\t\t\tbreak;\n\t}", "vkbd_send_key(vkbd, code == KEYD_IS_LEVEL3_SHIFT ? KEYD_RIGHTALT : code, state);\n\t\t\tbreak;\n\t}")]),
 ("notif", [(D, "case KEY_FN_RIGHT_SHIFT:       ev.code = KEYD_F13; break;", "case KEY_FN_RIGHT_SHIFT:       break;")]),
]
REF = [
 ("emit-helper", [(U, "static void write_key_event(", "static void emit(int fd, int type, int code, int value)\n{\n\tstruct input_event ev = {0};\n\tev.type = type;\n\tev.code = code;\n\tev.value = value;\n\txwrite(fd, &ev, sizeof ev);\n}\n\nstatic void write_key_event("),
   (U, "\tev.value = state;\n\n\tev.time.tv_sec = 0;\n\tev.time.tv_usec = 0;\n\n\txwrite(fd, &ev, sizeof(ev));\n\n\tev.type = EV_SYN;\n\tev.code = 0;\n\tev.value = 0;\n\n\n\txwrite(fd, &ev, sizeof(ev));\n", "\temit(fd, EV_KEY, ev.code, state);\n\temit(fd, EV_SYN, 0, 0);\n")]),
 ("range-btn", [(U, "if (is_btn) {\n\t\tfd", "if (ev.code >= BTN_LEFT && ev.code <= BTN_TASK) {\n\t\tfd")]),
 ("repeat-after", [(D, "\t\t/* Ignore repeat events. */\n\t\tif (ev.value == 2)\n\t\t\treturn NULL;\n", ""), (D, "\t\tdevev.type = DEV_KEY;\n", "\t\tif (ev.value > 1)\n\t\t\treturn NULL;\n\t\tdevev.type = DEV_KEY;\n")]),
 ("translate-fn", [(D, "struct device_event *device_read_event(", "static int fnkey(int code)\n{\n\tstatic const struct { uint16_t from; uint8_t to; } tab[] = {\n\t\t{KEY_FN_F1, KEYD_F13}, {KEY_FN_F2, KEYD_F14}, {KEY_FN_F3, KEYD_F15},\n\t};\n\tsize_t i;\n\tfor (i = 0; i < sizeof(tab)/sizeof(tab[0]); i++)\n\t\tif (tab[i].from == code)\n\t\t\treturn tab[i].to;\n\treturn 0;\n}\n\nstruct device_event *device_read_event("),
   (D, "\t\t\t\tcase KEY_FN_F1:  ev.code = KEYD_F13; break;\n\t\t\t\tcase KEY_FN_F2:  ev.code = KEYD_F14; break;\n\t\t\t\tcase KEY_FN_F3:  ev.code = KEYD_F15; break;\n", "\t\t\t\tcase KEY_FN_F1:\n\t\t\t\tcase KEY_FN_F2:\n\t\t\t\tcase KEY_FN_F3:\n\t\t\t\t\tev.code = fnkey(ev.code);\n\t\t\t\t\tbreak;\n")]),
 ("declare-table", [(U, "\tioctl(fd, UI_SET_RELBIT, REL_X);\n\tioctl(fd, UI_SET_RELBIT, REL_WHEEL);\n\tioctl(fd, UI_SET_RELBIT, REL_HWHEEL);\n\tioctl(fd, UI_SET_RELBIT, REL_Y);\n\tioctl(fd, UI_SET_RELBIT, REL_Z);\n", "\tconst int rel[] = {REL_X, REL_Y, REL_Z, REL_WHEEL, REL_HWHEEL};\n\tfor (size_t i = 0; i < 5; i++)\n\t\tioctl(fd, UI_SET_RELBIT, rel[i]);\n")]),
 ("declare-check", [(U, "\tfor (code = BTN_LEFT; code <= BTN_TASK; code++)\n\t\tioctl(fd, UI_SET_KEYBIT, code);\n", "\tfor (code = BTN_LEFT; code <= BTN_TASK; code++)\n\t\tif (ioctl(fd, UI_SET_KEYBIT, code) < 0) {\n\t\t\tperror(\"ioctl\");\n\t\t\texit(-1);\n\t\t}\n")]),
 ("handler-fn", [(DM, "static int event_handler(struct event *ev)", "static int on_key(struct keyboard *kbd, const struct device_event *d, long ts)\n{\n\tstruct key_event k = { .code = d->code, .pressed = d->pressed, .timestamp = ts };\n\treturn kbd_process_events(kbd, &k, 1);\n}\n\nstatic int event_handler(struct event *ev)"),
   (DM, "\t\t\t\tkev.code = ev->devev->code;\n\t\t\t\tkev.pressed = ev->devev->pressed;\n\t\t\t\tkev.timestamp = ev->timestamp;\n\n\t\t\t\ttimeout = min_timeout(timeout, kbd_process_events(kbd, &kev, 1));", "\t\t\t\ttimeout = min_timeout(timeout, on_key(kbd, ev->devev, ev->timestamp));")]),
 ("loop-for", [(E, "\t\t\t\tstruct device_event *devev;\n\n\t\t\t\twhile ((devev = device_read_event(&device_table[i]))) {", "\t\t\t\tstruct device *dev = &device_table[i];\n\n\t\t\t\tfor (;;) {\n\t\t\t\t\tstruct device_event *devev = device_read_event(dev);\n\t\t\t\t\tif (!devev)\n\t\t\t\t\t\tbreak;\n"), (E, "ev.devev = devev;\n\t\t\t\t\t\tev.dev = &device_table[i];", "ev.devev = devev;\n\t\t\t\t\t\tev.dev = dev;")]),
 ("send-if", [(DM, "\tswitch (code) {\n\t\tcase KEYD_SCROLL_DOWN:", "\tif (code != KEYD_SCROLL_DOWN && code != KEYD_SCROLL_UP && code != KEYD_SCROLL_LEFT && code != KEYD_SCROLL_RIGHT) {\n\t\tvkbd_send_key(vkbd, code, state);\n\t\treturn;\n\t}\n\n\tswitch (code) {\n\t\tcase KEYD_SCROLL_DOWN:")]),
]
