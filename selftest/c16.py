D, V, U = "src/daemon.c", "src/device.c", "src/vkbd/uinput.c"
MUT = [
 ("no-drain", [(V, """	while (read(dev->fd, &ev, sizeof(ev)) > 0) {
	}
""", "	(void)ev;\n")]),
 ("drain-once", [(V, "	while (read(dev->fd, &ev, sizeof(ev)) > 0) {\n	}\n", "	if (read(dev->fd, &ev, sizeof(ev)) > 0)\n		dbg(\"drained\");\n")]),
 ("virtual", [(D, "	if (dev->is_virtual)\n		return;\n", "")]),
 ("vendor", [(V, "info.vendor == 0x0FAC", "info.vendor == 0x0FAC && info.product == 0x0ADE")]),
 ("vendor2", [(V, "info.vendor == 0x0FAC", "(info.vendor & 0xff) == 0xAC")]),
 ("stale-data", [(D, "		dev->data = NULL;\n		device_ungrab(dev);\n", "		device_ungrab(dev);\n")]),
 ("no-ungrab", [(D, "		dev->data = NULL;\n		device_ungrab(dev);\n", "		dev->data = NULL;\n")]),
 ("grab-fail-data", [(D, "			dev->data = NULL;\n			return;\n		}\n\n		keyd_log", "			dev->data = ent->kbd;\n			return;\n		}\n\n		keyd_log")]),
 ("grab-fail-stale", [(D, "			dev->data = NULL;\n			return;\n		}\n\n		keyd_log", "			return;\n		}\n\n		keyd_log")]),
 ("ungrab-flag", [(V, "		dev->grabbed = 0;\n		return 0;\n	} else", "		return 0;\n	} else")]),
 ("grab-nomatch", [(D, "	if ((ent = lookup_config_ent(dev->id, flags))) {\n		if (device_grab(dev)) {", "	ent = lookup_config_ent(dev->id, flags);\n	if (device_grab(dev))\n		ent = NULL;\n	if (ent) {\n		if (device_grab(dev)) {")]),
 ("neutral-n", [(V, "		if (n == 0)\n			break;", "		if (n <= 1)\n			break;")]),
 ("neutral-bits", [(V, "for (i = 0; i < KEY_MAX; i++) {", "for (i = 0; i < 256; i++) {")]),
 ("neutral-retry", [(V, "		else\n			pending_release = 1;", "		else if (pending_release++ > 50)\n			break;")]),
 ("grabbed-early", [(V, "	if (ioctl(dev->fd, EVIOCGRAB, (void *) 1) < 0) {\n", "	dev->grabbed = 1;\n	if (ioctl(dev->fd, EVIOCGRAB, (void *) 1) < 0) {\n")]),
 ("grabbed-never", [(V, "	dev->grabbed = 1;\n	return 0;", "	return 0;")]),
 ("reload-skip", [(D, "	for (i = 0; i < device_table_sz; i++)\n		manage_device", "	for (i = 1; i < device_table_sz; i++)\n		manage_device")]),
 ("reload-matched", [(D, "	for (i = 0; i < device_table_sz; i++)\n		manage_device", "	for (i = 0; i < device_table_sz; i++)\n		if (device_table[i].data)\n			manage_device")]),
 ("remap-ungrabbed", [(D, "active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp", "active_kbd, ev->devev->code, ev->timestamp")]),
 ("init-grabbed", [(V, "		dev->grabbed = 0;\n\n", "\n")]),
 ("pointer-vendor", [(U, "0x1FAC", "0x1FAD")]) if False else ("pointer-vendor", [(U, "vendor = 0x0FAC", "vendor = 0x0FAD")]),
]
