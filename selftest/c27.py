D, U, DM, E = "src/device.c", "src/vkbd/uinput.c", "src/daemon.c", "src/evloop.c"
MUT = [
 ("hwheel-y", [(D, "devev.y = 0;\n\t\t\tdevev.x = ev.value;\n\n\t\t\tbreak;\n\t\tcase REL_X:", "devev.x = 0;\n\t\t\tdevev.y = ev.value;\n\n\t\t\tbreak;\n\t\tcase REL_X:")]),
 ("stale-y", [(D, "devev.type = DEV_MOUSE_MOVE;\n\t\t\tdevev.x = ev.value;\n\t\t\tdevev.y = 0;", "devev.type = DEV_MOUSE_MOVE;\n\t\t\tdevev.x = ev.value;")]),
 ("stale-x", [(D, "devev.type = DEV_MOUSE_SCROLL;\n\t\t\tdevev.y = ev.value;\n\t\t\tdevev.x = 0;", "devev.type = DEV_MOUSE_SCROLL;\n\t\t\tdevev.y = ev.value;")]),
 ("cut8", [(D, "devev.type = DEV_MOUSE_MOVE;\n\t\t\tdevev.x = ev.value;", "devev.type = DEV_MOUSE_MOVE;\n\t\t\tdevev.x = (int16_t)ev.value;")]),
 ("hires", [(D, "\t\tdefault:\n\t\t\tdbg(\"Unrecognized EV_REL", "\t\tcase REL_WHEEL_HI_RES:\n\t\t\tdevev.type = DEV_MOUSE_SCROLL;\n\t\t\tdevev.y = ev.value / 120;\n\t\t\tdevev.x = 0;\n\t\t\tbreak;\n\t\tdefault:\n\t\t\tdbg(\"Unrecognized EV_REL")]),
 ("abs-swap", [(D, "- (int32_t)dev->_miny) * 1024 / (dev->_maxy - dev->_miny)", "- (int32_t)dev->_miny) * 1024 / (dev->_maxx - dev->_minx)")]),
 ("abs-min", [(D, "((int64_t)ev.value - (int32_t)dev->_minx) * 1024", "((int64_t)ev.value) * 1024")]),
 ("abs-overflow", [(D, "((int64_t)ev.value - (int32_t)dev->_minx) * 1024", "((int32_t)ev.value - (int32_t)dev->_minx) * 1024")]),
 ("abs-neg", [(D, "((int64_t)ev.value - (int32_t)dev->_minx) * 1024", "((int64_t)ev.value - dev->_minx) * 1024")]),
 ("abs-zero", [(U, "\tif (x >= 0) {", "\tif (x > 0) {")]),
 ("abs-other", [(D, "devev.y = -1;", "devev.y = 0;")]),
 ("abs-range", [(U, "udev.absmax[ABS_Y] = 1024;", "udev.absmax[ABS_Y] = 1023;")]),
 ("abs-type", [(D, "case ABS_Y:\n\t\t\tdevev.type = DEV_MOUSE_MOVE_ABS;", "case ABS_Y:\n\t\t\tdevev.type = DEV_MOUSE_MOVE;")]),
 ("move-swap", [(DM, "vkbd_mouse_move(vkbd, ev->devev->x, ev->devev->y);", "vkbd_mouse_move(vkbd, ev->devev->y, ev->devev->x);")]),
 ("scroll-noneg", [(DM, "-1*yticks", "yticks")]),
 ("scroll-rest", [(DM, "kbd->scroll.x %= kbd->scroll.sensitivity;", "kbd->scroll.x = 0;")]),
 ("scroll-order", [(DM, "yticks = kbd->scroll.y / kbd->scroll.sensitivity;\n\t\t\t\t\tkbd->scroll.y %= kbd->scroll.sensitivity;", "kbd->scroll.y %= kbd->scroll.sensitivity;\n\t\t\t\t\tyticks = kbd->scroll.y / kbd->scroll.sensitivity;")]),
 ("scroll-assign", [(DM, "kbd->scroll.x += ev->devev->x;", "kbd->scroll.x = ev->devev->x;")]),
 ("scroll-also-move", [(DM, "vkbd_mouse_scroll(vkbd, xticks, 0);\n", "vkbd_mouse_scroll(vkbd, xticks, 0);\n\t\t\t\t\tif (!xticks && !yticks)\n\t\t\t\t\t\tvkbd_mouse_move(vkbd, ev->devev->x, ev->devev->y);\n")]),
 ("scroll-both", [(DM, "vkbd_mouse_scroll(vkbd, xticks, 0);\n", "vkbd_mouse_scroll(vkbd, xticks, yticks);\n")]),
 ("wheel-dir", [(DM, "process_keypress(active_kbd, KEYD_SCROLL_LEFT", "process_keypress(active_kbd, KEYD_SCROLL_RIGHT")]),
 ("wheel-one", [(DM, "for (i = 0;i < (size_t)-1*ev->devev->y; i++)", "if (1)")]),
 ("wheel-off", [(DM, "for (i = 0;i < (size_t)ev->devev->y; i++)", "for (i = 1;i < (size_t)ev->devev->y; i++)")]),
 ("wheel-nrelease", [(DM, "\tkev.pressed = 0;\n\treturn kbd_process_events(kbd, &kev, 1);", "\treturn kbd_process_events(kbd, &kev, 1);")]),
 ("tick-dir", [(DM, "vkbd_mouse_scroll(vkbd, -1, 0);", "vkbd_mouse_scroll(vkbd, 1, 0);")]),
 ("tick-axis", [(DM, "vkbd_mouse_scroll(vkbd, 1, 0);", "vkbd_mouse_scroll(vkbd, 0, 1);")]),
 ("tick-release", [(DM, "case KEYD_SCROLL_LEFT:\n\t\t\tif (state)\n", "case KEYD_SCROLL_LEFT:\n")]),
 ("out-axis", [(U, "ev.code = REL_WHEEL;\n\tev.value = y;", "ev.code = REL_WHEEL;\n\tev.value = x;")]),
 ("out-skip", [(U, "\tif (y) {\n\t\tev.type = EV_REL;", "\tif (y && !x) {\n\t\tev.type = EV_REL;")]),
 ("out-early", [(U, "void vkbd_mouse_scroll(const struct vkbd *vkbd, int x, int y)\n{\n\tstruct input_event ev;\n", "void vkbd_mouse_scroll(const struct vkbd *vkbd, int x, int y)\n{\n\tstruct input_event ev;\n\n\tif (y > 1)\n\t\ty = 1;\n")]),
 ("undeclared", [(U, "\tioctl(fd, UI_SET_RELBIT, REL_HWHEEL);\n", "")]),
 ("undeclared-ev", [(U, "\tioctl(fd, UI_SET_EVBIT, EV_ABS);\n", "")]),
 ("fd", [(U, "\tev.code = REL_HWHEEL;\n\tev.value = x;\n\n\tev.time.tv_sec = 0;\n\tev.time.tv_usec = 0;\n\n\txwrite(vkbd->pfd", "\tev.code = REL_HWHEEL;\n\tev.value = x;\n\n\tev.time.tv_sec = 0;\n\tev.time.tv_usec = 0;\n\n\txwrite(vkbd->fd")]),
]
REF = [
 ("emit", [(U, "void vkbd_mouse_move(const", "static void rel(const struct vkbd *vkbd, int type, int code, int value)\n{\n\tstruct input_event ev = {.type = type, .code = code, .value = value};\n\txwrite(vkbd->pfd, &ev, sizeof ev);\n}\n\nvoid vkbd_mouse_move(const"),
   (U, "\tev.type = EV_REL;\n\tev.code = REL_WHEEL;\n\tev.value = y;\n\n\tev.time.tv_sec = 0;\n\tev.time.tv_usec = 0;\n\n\txwrite(vkbd->pfd, &ev, sizeof(ev));\n\n\tev.type = EV_REL;\n\tev.code = REL_HWHEEL;\n\tev.value = x;\n\n\tev.time.tv_sec = 0;\n\tev.time.tv_usec = 0;\n\n\txwrite(vkbd->pfd, &ev, sizeof(ev));\n", "\trel(vkbd, EV_REL, REL_WHEEL, y);\n\trel(vkbd, EV_REL, REL_HWHEEL, x);\n")]),
 ("scroll-nonzero", [(DM, "vkbd_mouse_scroll(vkbd, 0, -1*yticks);\n\t\t\t\t\tvkbd_mouse_scroll(vkbd, xticks, 0);", "if (xticks || yticks)\n\t\t\t\t\t\tvkbd_mouse_scroll(vkbd, xticks, -yticks);")]),
 ("scroll-sub", [(DM, "kbd->scroll.y %= kbd->scroll.sensitivity;", "kbd->scroll.y -= yticks * kbd->scroll.sensitivity;")]),
 ("wheel-helper", [(DM, "static int event_handler(struct event *ev)", "static long taps(struct keyboard *kbd, int n, uint8_t pos, uint8_t neg, long ts, long timeout)\n{\n\tuint8_t c = n < 0 ? neg : pos;\n\tif (n < 0)\n\t\tn = -n;\n\twhile (n-- > 0)\n\t\ttimeout = min_timeout(timeout, process_keypress(kbd, c, ts));\n\treturn timeout;\n}\n\nstatic int event_handler(struct event *ev)"),
   (DM, """					if (ev->devev->x > 0)
						for (i = 0;i < (size_t)ev->devev->x; i++)
							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp));
					if (ev->devev->x < 0)
						for (i = 0;i < (size_t)-1*ev->devev->x; i++)
							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp));
""", "\t\t\t\t\ttimeout = taps(active_kbd, ev->devev->x, KEYD_SCROLL_RIGHT, KEYD_SCROLL_LEFT, ev->timestamp, timeout);\n"), (DM, "\t\t\tsize_t i;\n\t\t\tcase DEV_KEY:", "\t\t\tsize_t i;\n\t\t\tcase DEV_KEY:")]),
 ("abs-helper", [(D, "struct device_event *device_read_event(", "static int scale(int v, uint32_t lo, uint32_t hi)\n{\n\tint64_t d = (int64_t)v - (int32_t)lo;\n\treturn d * 1024 / (int64_t)(hi - lo);\n}\n\nstruct device_event *device_read_event("), (D, "devev.x = ((int64_t)ev.value - (int32_t)dev->_minx) * 1024 / (dev->_maxx - dev->_minx);", "devev.x = scale(ev.value, dev->_minx, dev->_maxx);")]),
 ("send-ticks", [(DM, "\t\tcase KEYD_SCROLL_DOWN:\n\t\t\tif (state)\n\t\t\t\tvkbd_mouse_scroll(vkbd, 0, -1);\n\t\t\tbreak;\n\t\tcase KEYD_SCROLL_UP:\n\t\t\tif (state)\n\t\t\t\tvkbd_mouse_scroll(vkbd, 0, 1);\n\t\t\tbreak;\n", "\t\tcase KEYD_SCROLL_DOWN:\n\t\tcase KEYD_SCROLL_UP:\n\t\t\tif (state)\n\t\t\t\tvkbd_mouse_scroll(vkbd, 0, code == KEYD_SCROLL_UP ? 1 : -1);\n\t\t\tbreak;\n")]),
 ("rel-nested", [(D, "\t\tcase REL_X:\n\t\t\tdevev.type = DEV_MOUSE_MOVE;\n\t\t\tdevev.x = ev.value;\n\t\t\tdevev.y = 0;\n\n\t\t\tbreak;\n\t\tcase REL_Y:\n\t\t\tdevev.type = DEV_MOUSE_MOVE;\n\t\t\tdevev.y = ev.value;\n\t\t\tdevev.x = 0;\n\n\t\t\tbreak;", "\t\tcase REL_X:\n\t\tcase REL_Y:\n\t\t\tdevev.type = DEV_MOUSE_MOVE;\n\t\t\tdevev.x = ev.code == REL_X ? ev.value : 0;\n\t\t\tdevev.y = ev.code == REL_Y ? ev.value : 0;\n\t\t\tbreak;")]),
]
