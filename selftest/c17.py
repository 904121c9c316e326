E, V = "src/evloop.c", "src/device.c"
MUT = [
 ("after-handler", [(E, """						if (devev->type == DEV_KEY)
							panic_check(devev->code, devev->pressed);

""", ""), (E, """						timeout = event_handler(&ev);
					}
				}
			}
		}
""", """						timeout = event_handler(&ev);
						if (devev->type == DEV_KEY)
							panic_check(devev->code, devev->pressed);
					}
				}
			}
		}
""")]),
 ("no-type", [(E, "						if (devev->type == DEV_KEY)\n							panic", "							panic")]),
 ("not-led", [(E, "						if (devev->type == DEV_KEY)\n							panic", "						if (devev->type != DEV_LED)\n							panic")]),
 ("only-grabbed", [(E, "						if (devev->type == DEV_KEY)\n							panic", "						if (devev->type == DEV_KEY && device_table[i].grabbed)\n							panic")]),
 ("two", [(E, "if (backspace && enter && escape)", "if (backspace && (enter || escape))")]),
 ("last-esc", [(E, """	if (backspace && enter && escape)""", """	if (code == KEYD_ESC && backspace && enter && escape)""")]),
 ("set-only", [(E, "		enter = pressed;", "		enter |= pressed;")]),
 ("reset-other", [(E, """		escape = pressed;
		break;
""", """		escape = pressed;
		break;
	default:
		enter = 0;
""")]),
 ("kpenter", [(E, "	case KEYD_ENTER:\n", "	case KEYD_ENTER:\n	case KEYD_KPENTER:\n")]),
 ("reset-remove", [(E, "static void panic_check(uint8_t code, uint8_t pressed)\n{\n	static uint8_t enter, backspace, escape;\n", "static uint8_t enter, backspace, escape;\nstatic void panic_check(uint8_t code, uint8_t pressed)\n{\n"),
   (E, "						device_table[i].fd = -1;\n", "						device_table[i].fd = -1;\n						enter = backspace = escape = 0;\n")]),
 ("warn", [(E, 'die("panic sequence detected");', 'keyd_log("panic sequence detected");')]),
]
REF = [
 ("bitmask", [(E, """	static uint8_t enter, backspace, escape;
	switch (code) {
	case KEYD_ENTER:
		enter = pressed;
		break;
	case KEYD_BACKSPACE:
		backspace = pressed;
		break;
	case KEYD_ESC:
		escape = pressed;
		break;
	}

	if (backspace && enter && escape)
""", """	static unsigned held;
	unsigned bit = code == KEYD_ENTER ? 1 : code == KEYD_BACKSPACE ? 2 : code == KEYD_ESC ? 4 : 0;
	if (pressed)
		held |= bit;
	else
		held &= ~bit;
	if (held == 7)
""")]),
 ("array", [(E, """	static uint8_t enter, backspace, escape;
	switch (code) {
	case KEYD_ENTER:
		enter = pressed;
		break;
	case KEYD_BACKSPACE:
		backspace = pressed;
		break;
	case KEYD_ESC:
		escape = pressed;
		break;
	}

	if (backspace && enter && escape)
""", """	static uint8_t held[256];
	held[code] = pressed;
	if (held[KEYD_ENTER] && held[KEYD_BACKSPACE] && held[KEYD_ESC])
""")]),
 ("in-switch", [(E, """						if (devev->type == DEV_KEY)
							panic_check(devev->code, devev->pressed);
""", """						switch (devev->type) {
						case DEV_KEY:
							panic_check(devev->code, devev->pressed);
							break;
						default:
							break;
						}
""")]),
]
