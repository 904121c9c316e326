"""Source of /verif/properties.jsonl and of the property half of MANIFEST.json (tools/gen.py)."""
P = []

def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None),
        _na=na))

T = "The t/*.t scenarios drive the engine with one fixed, well-formed configuration; "

p("C01", "Configuration, include and binding text never overruns a buffer",
  "Whatever the contents, length or nesting of a configuration file, an included file or a binding expression, "
  "keyd never reads or writes outside the storage it set aside for names, lines, layers, chords, macros, commands, "
  "actions, aliases and device ids. Input that does not fit a limit is refused with a message (or truncated), never stored past the limit.",
  ["inputs", "configurations"], "every byte sequence a configuration file, included file or binding expression can contain",
  T + "no test feeds an over-long or malformed file, and an overrun need not crash.",
  ["src/config.c", "src/ini.c", "src/macro.c", "src/string.c", "src/keys.c", "src/log.c"],
  [("capacity guard before every append", "config.c: read_file, set_layer_entry, new_layer, config_add_layer, parse_fn, parse_macro_expression, parse_command, parse_descriptor, parse_id_section, parse_alias_section, config_add_entry"),
   ("section and entry limits", "ini.c: ini_parse_string")],
  [("nr_layers/nr_chords/nr_macros/nr_descriptors/nr_commands/nr_ids/nr_constituents/sz", "fill counters of fixed arrays", "config.h, macro.h")],
  ["config_parse", "config_add_entry", "macro_parse"])

p("C02", "Running tables never overrun: keys, queues, timers, devices, clients",
  "For every history of key events, timeouts, device arrivals and removals, layer changes, listener connections and control requests, "
  "each table the running daemon keeps (per-key state, held-key cache, event queues, timers, devices, listeners, watched descriptors, message buffers) "
  "is only accessed within its bounds. A full table makes the daemon drop or refuse the new item, not overwrite its neighbours.",
  ["histories", "inputs"], "every sequence of input events, hot-plugs, clients and messages",
  T + "capacities are reached only by long histories, and the daemon, device and event-loop code is never executed by a test.",
  ["src/keyboard.c", "src/daemon.c", "src/device.c", "src/evloop.c", "src/keyd.c", "src/monitor.c", "src/vkbd/uinput.c"],
  [("capacity guard or full-range index type before each access", "keyboard.c, daemon.c: add_listener/on_layer_change/handle_client, evloop.c, device.c")],
  [("queue_sz, nr_timeouts, nr_listeners, nr_aux_fds, device_table_sz", "fill counters", "keyboard.h, daemon.c, evloop.c")],
  ["kbd_process_events", "evloop"])

p("C03", "Nothing a client, a device or typing does can end or wedge the daemon",
  "Once the daemon has started, no control-socket client (including one that sends garbage, a truncated message, or disconnects at any moment), "
  "no device that fails or disappears, and no sequence of key events makes it exit, abort or spin forever. "
  "It ends only on the panic sequence or a termination signal, or when its own output device or configuration directory becomes unusable. "
  "(Known exception: taking over a newly attached keyboard waits until all its keys are up.)",
  ["inputs", "fault_sequences", "histories"], "all client byte streams and disconnect points, all device failures, all key sequences",
  T + "no test opens the control socket, fails a write, removes a device or fills a queue.",
  ["src/daemon.c", "src/util.c", "src/ipc.c", "src/device.c", "src/evloop.c", "src/keyboard.c", "src/macro.c", "src/string.c"],
  [("bounded message reads that give up on error or end of stream", "daemon.c: handle_client; util.c"),
   ("no process-terminating call reachable from event handling except the listed ones", "evloop.c: evloop, daemon.c: event_handler")],
  [], ["event_handler", "handle_client"])

p("C04", "Every control request is answered truthfully, exactly once",
  "Each accepted control connection receives exactly one reply and is then closed exactly once, except that a listen request makes the connection a listener instead. "
  "The reply is a success only if the request was carried out (the macro parsed and was played, the text was injected, at least one configuration accepted the binding, the reload ran) and a failure otherwise. "
  "Requests with an oversized payload, an excessive timeout or an unknown type are refused without any effect on keys or bindings.",
  ["inputs", "histories"], "every request type, size, timeout and payload",
  "No test talks to the control socket.",
  ["src/daemon.c", "src/ipc.c", "src/keyd.c"],
  [("single reply-and-close per path", "daemon.c: handle_client, send_success, send_fail, add_listener")],
  [("con", "accepted connection", "daemon.c: event_handler")], ["handle_client"])

p("C05", "A key's release always undoes the action its press performed",
  "The action carried out when a key is released is the one chosen when it was pressed, whatever layers, bindings or chords changed in between. "
  "A second press of a key already held, and a release of a key not held, have no effect; a release always frees the key so that it can be pressed again, "
  "and a press that cannot be remembered is not acted upon.",
  ["histories", "inputs"], "all interleavings of presses, releases and layer or binding changes",
  T + "mid-stroke layer changes and rebinding while held are only sampled.",
  ["src/keyboard.c"],
  [("press-time resolution remembered per held key and consulted on release", "keyboard.c: process_event, cache_get, cache_set, handle_pending_key")],
  [("cache", "held key -> resolved action", "keyboard.h: struct keyboard")], ["kbd_process_events"])

p("C06", "Layer activations balance: every hold is released, no layer sticks",
  "Every activation of a layer by a held key, a one-shot, a toggle or a swap is undone exactly once, by the matching release, consumption, second toggle or clear, and on the same layer. "
  "Pressing and releasing a key bound to any layer action therefore leaves every layer's activation count where it was, apart from the toggles and pending one-shots it is documented to leave behind, "
  "and clear removes every toggled and one-shot activation.",
  ["histories", "configurations"], "all sequences of layer actions",
  T + "each layer action is sampled alone or in a few combinations.",
  ["src/keyboard.c"],
  [("paired activation and deactivation per action", "keyboard.c: process_descriptor, activate_layer, deactivate_layer, clear_oneshot, clear, setlayout")],
  [("layer_state[].active/toggled/oneshot_depth", "activation count, toggle flag, pending one-shots", "keyboard.h")], ["kbd_process_events"])

p("C07", "Every layer change is reported, with the right direction",
  "Each time a layer becomes more or less active, or the layout is switched, the change is announced exactly once, naming that layer and saying whether it was activated or deactivated; nothing is announced without a change. "
  "Announcements reach every connected listener in order, marked + for activation, - for deactivation and / for layouts.",
  ["histories"], "all sequences of layer and layout changes",
  "The test harness installs an empty notification callback, so no test observes one.",
  ["src/keyboard.c", "src/daemon.c"],
  [("notification next to each state change", "keyboard.c: activate_layer, deactivate_layer, setlayout"),
   ("message formatting and fan-out", "daemon.c: on_layer_change")],
  [], ["output.on_layer_change"])

p("C08", "Output key state is tracked exactly and fully released on clear and reload",
  "Outside the playback of a macro, a key transition is sent to the output only when it changes the recorded state of that key, and the record is updated with every transition sent, so no key is pressed or released twice in a row by the engine. "
  "Clearing the engine state and reloading the configuration release every key, whatever its code, that is still recorded as down.",
  ["histories"], "all event histories, all 256 key codes",
  T + "reload is never executed and only a handful of codes are used.",
  ["src/keyboard.c", "src/daemon.c"],
  [("state record updated with each send", "keyboard.c: send_key, reset_keystate; daemon.c: send_key, clear_vkbd"),
   ("full release after reload", "daemon.c: reload")],
  [("keystate", "codes currently held on the output", "keyboard.h, daemon.c")], ["output.send_key", "vkbd_send_key"])

p("C09", "Macros and injected text release every key they press",
  "Executing a macro or injecting text presses and releases keys in matched pairs: every key or modifier an item presses is released by that item, or, for keys held together with +, by the end of that group. "
  "Only keys named by the macro are touched: a pause is never sent as a key, and every character of injected text is either typed completely or the request fails.",
  ["inputs", "programs"], "all macros and all injected texts",
  T + "a handful of macros are tried, none mixing pauses into held groups, and text injection is never executed.",
  ["src/macro.c", "src/daemon.c"],
  [("press/release pairing per entry", "macro.c: macro_execute, macro_parse; daemon.c: input")], [], ["output callback", "vkbd_send_key"])

p("C10", "Every timed action is given a wake-up in time",
  "Whenever the engine starts waiting for a deadline (tap/hold decisions, chords, one-shot expiry, macro repeat) it also arranges to be woken for that deadline, and the earliest pending wake-up is what the main loop is told to wait for. "
  "No pending deadline is dropped while it is still in the future (as long as fewer than 64 are pending), and neither another event nor another keyboard makes the daemon forget one.",
  ["histories", "schedules"], "all interleavings of deadlines and events",
  T + "the simulated clock always calls back, so a missing wake-up is only visible when no further key arrives.",
  ["src/keyboard.c", "src/daemon.c", "src/evloop.c"],
  [("deadline stored together with a scheduled wake-up", "keyboard.c: process_descriptor, handle_chord, process_event, schedule_timeout, calculate_main_loop_timeout"),
   ("wake-up propagated", "keyboard.c: kbd_process_events, daemon.c: event_handler, evloop.c: evloop")],
  [("timeouts/nr_timeouts", "pending wake-ups", "keyboard.h")], ["return value of kbd_process_events", "poll timeout"])

p("C11", "Events held back by chords and tap-hold keys are replayed, none lost",
  "An event that is withheld while a chord or a tap/hold key is undecided is kept with its key, direction and time, and once the decision is made every withheld event is processed, in order, except the presses that made up the chord. "
  "No event is swallowed otherwise.",
  ["histories", "schedules"], "all interleavings of events around undecided keys",
  T + "only a few interleavings are sampled.",
  ["src/keyboard.c"],
  [("append on every withholding path, replay on every resolving path", "keyboard.c: handle_chord, enqueue_chord_event, resolve_chord, abort_chord, handle_pending_key")],
  [("chord.queue, pending_key.queue", "withheld events", "keyboard.h")], ["kbd_process_events"])

p("C12", "Modifier keys follow the active layers after every event",
  "Whenever an event changes which layers are active, the modifiers shown to the system are brought back in line with the active layers by the time the key that caused it is released (or, for expiry, at once). "
  "No action leaves a modifier of its own held, or one of a layer missing, after its key is released; only a macro or a one-shot key bound in a modifier layer may leave out that layer's modifiers until the next key, and an action that resets everything releases all of them.",
  ["histories"], "all sequences of layer actions",
  T + "modifier synchronisation is sampled per action, not for combinations such as toggles under a pending one-shot.",
  ["src/keyboard.c"],
  [("modifier recomputation after layer changes", "keyboard.c: update_mods, set_mods, process_descriptor, process_event")],
  [], ["output.send_key"])

p("C13", "Every action is executed with the argument kinds its syntax declares",
  "For every action a configuration can name, the engine uses each argument as the kind of thing the syntax accepted there (layer, layout, macro, nested action, timeout, sensitivity, command), so no index is used against the wrong table. "
  "Every action that can be written is carried out by the engine, deprecated spellings mean the same as their replacements, and each documented action exists with the documented arguments.",
  ["programs", "configurations"], "all actions and argument positions",
  T + "several actions and argument combinations never occur in the test configuration.",
  ["src/config.c", "src/keyboard.c", "src/config.h", "docs/keyd.scdoc"],
  [("action table", "config.c: actions"), ("argument use", "keyboard.c: process_descriptor")], [], ["config_add_entry", "kbd_process_events"])

p("C14", "A rejected binding changes no key and says why",
  "A binding expression that is refused leaves the mapping of every key and chord in every layer exactly as it was, and always comes with an error message describing this refusal. "
  "An accepted binding changes only the named key, alias or chord in the named layer.",
  ["inputs"], "all binding expressions",
  "Tests apply valid configurations only; refusals are never compared with the prior mapping.",
  ["src/config.c"],
  [("validate before storing; message on every failing path", "config.c: config_add_entry, parse_descriptor, set_layer_entry")], [("errstr", "last error message", "log.c")], ["config_add_entry", "kbd_eval"])

p("C15", "After a reload nothing refers to the discarded configuration",
  "When the configuration is reloaded, every reference the daemon holds to a discarded configuration or its engine (current keyboard, each device's association, the configuration list) is replaced or dropped before anything can use it. "
  "Events, timeouts, listeners and clients after a reload only ever see live state.",
  ["histories"], "every point in a session at which a reload may happen",
  "Reload is never executed by a test, and use of freed memory need not crash.",
  ["src/daemon.c"],
  [("references cleared or reassigned on reload", "daemon.c: reload, free_configs, manage_device")],
  [("active_kbd, device data, configs", "references to engines", "daemon.c")], ["reload"])

p("C16", "Only devices a configuration claims are grabbed; keyd's own never are",
  "A device is taken over only if it is not one of keyd's own virtual devices and some configuration matches it, and its events are remapped only after taking it over succeeded. "
  "A device that no configuration matches (any more) is given back to the system untouched, and residual key-ups and queued input are dealt with before a device counts as taken over.",
  ["configurations", "histories"], "all devices, configurations, hot-plugs and reloads",
  "Device handling is never executed by a test.",
  ["src/daemon.c", "src/device.c", "src/vkbd/uinput.c"],
  [("virtual-device check, match, grab, association", "daemon.c: manage_device; device.c: device_init, device_grab, device_ungrab"),
   ("vendor id of own devices", "vkbd/uinput.c")],
  [("device.grabbed/is_virtual/data", "ownership state", "device.h")], ["EVIOCGRAB"])

p("C17", "Backspace+Escape+Enter always stops the daemon",
  "Whenever backspace, escape and enter are physically held together on any attached keyboard, in any order and whatever the configuration, keyd terminates before acting on the event that completed the combination. "
  "Nothing other than those three keys being down triggers it: not other keys, not pointer motion and not keyboard LEDs.",
  ["histories", "inputs", "configurations"], "all orders of presses and releases and all other device events in between",
  "The event loop is never executed by a test.",
  ["src/evloop.c"],
  [("tracking on raw key events before the handler", "evloop.c: panic_check, evloop")], [("enter/backspace/escape", "which of the three are down", "evloop.c: panic_check")], ["process exit"])

p("C18", "command() programs run detached and cannot disturb the daemon",
  "A command bound to a key is started in a separate process that is no child of the daemon when it runs, so the daemon neither waits for it nor collects zombies, and a process started for it never continues as a second daemon, even if the shell cannot be executed. "
  "Its standard input and output are not the daemon's, and it inherits none of the daemon's device, socket or lock descriptors.",
  ["fault_sequences", "histories"], "all failures of process creation and program start",
  "command() is never executed by a test.",
  ["src/keyboard.c", "src/device.c", "src/ipc.c", "src/vkbd/uinput.c", "src/daemon.c"],
  [("double fork, redirect, exec or exit", "keyboard.c: execute_command"), ("close-on-exec on long-lived descriptors", "device.c, ipc.c, vkbd/uinput.c, daemon.c")], [], ["fork/exec"])

p("C19", "One daemon per socket, reachable only by owner and group",
  "A starting daemon touches the control socket of a running one only after obtaining the exclusive lock, and gives up with a message, leaving the socket alone, if it cannot. "
  "The lock is held for the life of the daemon, the socket is listening before it is announced, and others than its owner and group have no access to it.",
  ["schedules", "fault_sequences"], "all interleavings of starting daemons and failures of the calls involved",
  "Socket creation is never executed by a test.",
  ["src/ipc.c", "src/daemon.c"],
  [("lock, unlink, bind, listen, chmod in order", "ipc.c: ipc_create_server"), ("refusal", "daemon.c: run_daemon")], [], ["bind", "flock", "chmod"])

p("C20", "Key codes survive the trip from device to output unchanged",
  "A key whose binding is itself appears on the output with the code the device produced, for every ordinary key and mouse button; every extended device code is either translated to a named key or ignored, never cut down to an unrelated key; autorepeat events are ignored. "
  "Every code the output stage can emit is declared on the virtual device that emits it, and buttons go to the pointer, keys to the keyboard. "
  "(Known exceptions: KEY_SCROLLUP, KEY_SCROLLDOWN and KEY_ALTERASE, whose codes keyd uses for keys of its own.)",
  ["inputs"], "all device key codes and all key codes",
  "Tests start from already translated codes and stop before the output device.",
  ["src/device.c", "src/vkbd/uinput.c", "src/keys.h", "src/keys.c"],
  [("code translation tables", "device.c: device_read_event; vkbd/uinput.c: write_key_event"),
   ("capability declaration", "vkbd/uinput.c: create_virtual_keyboard, create_virtual_pointer")], [], ["device_read_event", "vkbd_send_key"])

p("C21", "Key names and modifier notation are unambiguous and consistent",
  "Each key name, alternative name and shifted character denotes exactly one key, and every listed name is accepted where a key is expected. "
  "The modifier letters C, M, A, S and G mean the same modifier in key sequences, in layer headings and when printed, and each modifier is produced by exactly one physical modifier key.",
  ["inputs", "programs"], "all names and modifier combinations",
  T + "only some names and modifiers occur.",
  ["src/keys.c", "src/keys.h", "src/keyd.c"],
  [("key table and modifier tables", "keys.c: keycode_table, modifiers, parse_modset, parse_key_sequence, modstring")], [], ["parse_key_sequence", "parse_modset", "list-keys"])

p("C22", "Unicode output agrees with the shipped compose table",
  "For every character keyd can produce by a compose sequence, the keys it emits are exactly the sequence the shipped compose file assigns to that character, and distinct characters have distinct sequences. "
  "Every character in the table can be produced from macros and from text injection alike.",
  ["inputs"], "all characters in the table",
  T + "a couple of characters are tried; the compose file is never consulted.",
  ["src/unicode.c", "data/keyd.compose", "src/macro.c", "src/daemon.c", "scripts/generate_xcompose"],
  [("code point table and base-36 encoding", "unicode.c: unicode_lookup_index, unicode_get_sequence"), ("compose file", "data/keyd.compose")], [], ["compose output"])

p("C23", "Global options do what the manual says",
  "Every option documented for the [global] section is recognised, controls only the behaviour it names, accepts its documented range without being cut off, and has the documented default; no recognised option is silently without effect.",
  ["configurations"], "all options and values",
  T + "only a few options are set, none is compared with the manual.",
  ["src/config.c", "src/config.h", "src/keyboard.c", "src/daemon.c", "docs/keyd.scdoc"],
  [("option table", "config.c: parse_global_section"), ("defaults", "config.c: config_init")], [], ["config_parse"])

p("C24", "Descriptors are closed exactly once, none leaks",
  "Every descriptor keyd opens for a device, a configuration file, an included file, a directory or a client is closed exactly once when it is no longer needed, on success and on every failure path, and is not used afterwards. "
  "Plugging devices in and out, reloading and serving clients for ever therefore never exhausts descriptors.",
  ["fault_sequences", "histories"], "all failure points and histories",
  "Leaks accumulate over histories no test has, and device, client and reload code is not executed.",
  ["src/device.c", "src/evloop.c", "src/daemon.c", "src/config.c"],
  [("close on each exit path", "device.c: device_init, device_read_event; config.c: read_file; daemon.c: load_configs, on_layer_change, add_listener")], [], ["open/close"])

p("C25", "Includes stay inside the configuration and data directories",
  "An include line can only bring in a file located under the directory of the including configuration or the shared data directory: a name that could climb out of them or that carries a file extension is refused. "
  "Included text is not itself searched for further includes, so inclusion always terminates; it takes the place of the include line and stays apart from the lines around it.",
  ["inputs", "configurations"], "all include lines",
  "No test includes a file by a hostile name.",
  ["src/config.c"],
  [("name check before the path is built", "config.c: resolve_include_path, read_file")], [], ["open of an included file"])

p("C26", "Window classes and titles never reach a shell",
  "Names and titles of application windows, which any program can choose, are only ever used as data for matching: they are never executed, passed to a shell, or passed as arguments to another program. "
  "On each window change the mapper starts from the base bindings and applies only bindings written in the user's own mapping file, without shell interpretation.",
  ["inputs"], "all window classes and titles",
  "The application mapper has no tests.",
  ["scripts/keyd-application-mapper"],
  [("argument-vector invocation from configured bindings only", "scripts/keyd-application-mapper: on_window_change, lookup_bindings")], [], ["subprocess"])

p("C27", "Pointer motion and wheel events keep their axis and direction",
  "Motion, absolute position and wheel events of a remapped pointing device come out on the same axis with the same sign and amount; wheel ticks that pass through bindings come out as the same wheel direction when unbound. "
  "In scroll mode pointer motion is turned into wheel ticks on the corresponding axis, and no other events.",
  ["inputs"], "all motion and wheel events",
  "Tests only contain keys.",
  ["src/device.c", "src/daemon.c", "src/vkbd/uinput.c"],
  [("axis and sign mapping at three stages", "device.c: device_read_event; daemon.c: event_handler, send_key; vkbd/uinput.c: vkbd_mouse_*")], [], ["vkbd_mouse_scroll", "vkbd_mouse_move"])

p("C28", "Device matching follows the documented precedence",
  "A configuration that names a device explicitly is preferred over one that matches by wildcard; an exclusion of the device in a configuration overrides that configuration's wildcard; a prefixed id applies only to that kind of device. "
  "The wildcard never captures a device that is only a mouse, and a device named by no configuration is matched by none.",
  ["configurations", "inputs"], "all id sections, device ids and device kinds",
  "Device matching is never executed by a test.",
  ["src/config.c", "src/daemon.c"],
  [("ranked match", "config.c: config_check_match, parse_id_section; daemon.c: lookup_config_ent, manage_device")], [], ["manage_device"])

p("C29", "Listeners get the full state first, and slow ones never block the daemon",
  "A new listener first receives the current layout and every active layer and only then becomes subject to change messages, with none missed in between. "
  "Writes to listeners are time-limited from the start, a listener that cannot keep up or has gone away is dropped and closed without affecting the others, and a listener beyond the limit is told so and closed.",
  ["schedules", "fault_sequences"], "all listener behaviours and numbers",
  "No test connects a listener.",
  ["src/daemon.c"],
  [("snapshot, send timeout, registration, pruning", "daemon.c: add_listener, on_layer_change")], [("listeners/nr_listeners", "registered connections", "daemon.c")], ["listen"])

p("C30", "Shipped layouts and examples only use names keyd understands",
  "Every layout shipped with keyd, and every key, action and section name in it, is accepted by the configuration grammar, so that including a shipped layout never produces an error or a binding that is silently dropped. (Known exceptions: sixteen unassigned code points in five layouts and one binding of an example.)",
  ["configurations"], "all shipped layout files",
  "Only one hand-written configuration is loaded by the tests.",
  ["layouts", "src/keys.c", "src/config.c", "src/unicode.c"],
  [("name tables", "keys.c: keycode_table; config.c: actions"), ("layout files", "layouts/*")], [], ["config_parse"])

# ---- properties this family cannot decide here -------------------------------------------------
NA_TIME = ("The verdict depends on comparisons between run-time timestamps and accumulated queue contents across many events; "
           "no static argument in reach bounds them, and enumerating event sequences would be model checking or testing, not static analysis.")
p("C40", "A key counts as tapped or held exactly when its action says so",
  "A key bound to overloadt, overloadt2 or timeout stays undecided until its own release makes it a tap, its time passing makes it a hold (from the exact millisecond on), another key struck makes a timeout a tap, or "
  "the tap of another key struck since makes an overloadt2 a hold; keys struck before it do not matter. overload taps if no other key was struck meanwhile and it was held for less than overload_tap_timeout (0: any time); "
  "overloadi picks its first action if the last symbol is less than its limit ago. The tap is the action named, the hold the layer named (timeout: the second action), always for the same key.",
  ["schedules", "histories"], "all timings and interleavings", T + "a few fixed timings only, none at the bound.",
  ["src/keyboard.c"], [("set-up and immediate decisions", "keyboard.c: process_descriptor"), ("decision", "keyboard.c: handle_pending_key")],
  [("pending_key", "the undecided key, its moment and its two actions", "keyboard.h"), ("last_pressed_code, last_simple_key_time, overload_start_time", "what immediate decisions rest on", "keyboard.h")], ["kbd_process_events"])
p("C41", "Chords fire exactly when their keys are struck together within their time windows",
  "A chord fires if and only if exactly its keys are struck, in any order, each within the chord interval of the one before, and, with a hold time, none of them is released before it is over; where a longer chord may still follow, only after the interval. "
  "It fires once, before the other events held back, which follow in order; if it does not fire, every event held back is carried out as an ordinary one. A single key is never held back for longer than the interval. "
  "The chord's action is released with the last of its keys, and the releases of these keys are no ordinary events.",
  ["schedules", "histories"], "all subsets, orders and timings", T + "a few chords and timings.",
  ["src/keyboard.c"], [("states of a chord", "keyboard.c: handle_chord, resolve_chord, abort_chord"), ("matching", "keyboard.c: check_chord_match, chord_event_match"), ("events held back", "keyboard.c: enqueue_chord_event")],
  [("chord", "state, events held back, match and time of the last key", "keyboard.h"), ("active_chords", "chords which have fired and their keys still held", "keyboard.h")], ["kbd_process_events"])
p("C42", "The most recently activated layer decides a key's meaning",
  "A key which is struck takes its binding from the most recently activated of the active layers that bind it. A composite layer all of whose constituents are active goes before them, the one with more constituents first; "
  "where no layer binds the key it acts as itself. Main gives way to a layout and a layout to every other active layer, from the first activation on, and the binding's origin is remembered truly. "
  "Among active layers which define the same chord the most recently activated one decides.",
  ["histories", "configurations"], "all layer stacks and orders of activation", T + "small stacks, no default layout, and clocks near zero only.",
  ["src/keyboard.c"], [("lookup", "keyboard.c: lookup_descriptor"), ("stamps of activation", "keyboard.c: activate_layer, setlayout, new_keyboard, get_time"), ("choice among chords", "keyboard.c: check_chord_match")],
  [("layer_state[].activation_time", "stamp of the last activation", "keyboard.h")], ["kbd_process_events"])

p("C43", "Modifier guard never changes what a key combination means",
  "The extra control tap inserted around a lone modifier is produced exactly when a modifier would otherwise be tapped in isolation and is invisible to applications.",
  ["histories"], "all histories", T + "some cases are sampled.",
  ["src/keyboard.c"], [("guard", "keyboard.c: clear_mod")], [], ["output.send_key"],
  na="Whether a modifier is 'tapped in isolation' and whether the extra tap is invisible is defined over output histories and the behaviour of other programs; there is no source-level fact to check it against.")
p("C44", "Events are processed promptly",
  "Every input event is processed and emitted within a bounded time of its arrival.",
  ["schedules"], "all loads", "No test measures latency of the daemon.",
  ["src/evloop.c", "src/macro.c"], [("poll loop", "evloop.c: evloop")], [], ["uinput"],
  na="Latency depends on the kernel scheduler, on device and client behaviour and on configured macro pauses; no static bound exists.")
p("C45", "Configuration text means the same however it is spaced and escaped",
  "Insignificant white space, comments and redundant escapes never change the meaning of a configuration, and every printable key or text can be written.",
  ["inputs", "programs"], "all equivalent spellings", "One configuration file is parsed.",
  ["src/ini.c", "src/config.c", "src/string.c"], [("tokenising", "ini.c: ini_parse_string, parse_kvp; string.c: str_escape")], [], ["config_parse"],
  na="Equivalence of all spellings is a relational statement about the parser's output on pairs of unbounded strings; no dataflow or type-level rule decides it, and running pairs would be testing.")
p("C46", "The device id shown to users identifies the same device across reconnects",
  "The id printed for a device is the same each time that device is attached and differs between devices with different capabilities or names.",
  ["histories"], "all devices and reconnections", "No device is opened by a test.",
  ["src/device.c"], [("id generation", "device.c: generate_uid, device_init")], [], ["monitor"],
  na="Stability depends on what the kernel reports for a physical device, and distinctness on a 32-bit hash having no collision; neither is decidable from the source.")
p("C47", "Listener messages replayed in order reconstruct the true layer state",
  "Applying all messages a listener has received to an empty set yields exactly the set of active layers and the layout at every moment.",
  ["histories"], "all histories of layer changes and connection times", "No test connects a listener.",
  ["src/daemon.c", "src/keyboard.c"], [("messages", "daemon.c: on_layer_change, add_listener")], [], ["listen"],
  na="Counted activations are flattened to +/- messages, so equality with the true state is a property of whole histories (a + + - sequence), not of any path through the code; only its local ingredients are decidable and those are claimed as C07 and C29.")
