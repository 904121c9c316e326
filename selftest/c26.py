S = "scripts/keyd-application-mapper"
G = "data/gnome-extension-45/extension.js"
RUN = "    subprocess.run(['keyd', 'bind', 'reset', *bindings], stdout=subprocess.DEVNULL)\n"
MUT = [
    ("shell-true", [(S, RUN, "    subprocess.run('keyd bind reset ' + ' '.join(bindings), shell=True, stdout=subprocess.DEVNULL)\n")]),
    ("run-helper", [(S, RUN, "    run('keyd bind reset ' + ' '.join(repr(b) for b in bindings))\n")]),
    ("run-or-die", [(S, RUN, "    run_or_die('keyd bind reset ' + ' '.join(bindings))\n")]),
    ("os-system", [(S, RUN, "    os.system('keyd bind reset ' + ' '.join(bindings))\n")]),
    ("sh-c", [(S, RUN, "    subprocess.run(['/bin/sh', '-c', 'keyd bind reset \"$@\"', 'keyd', *bindings], stdout=subprocess.DEVNULL)\n")]),
    ("sh-var", [(S, RUN, "    argv = ['sh', '-c', 'keyd bind reset ' + ' '.join(bindings)]\n    subprocess.run(argv, stdout=subprocess.DEVNULL)\n")]),
    ("no-reset", [(S, RUN, "    subprocess.run(['keyd', 'bind', *bindings], stdout=subprocess.DEVNULL)\n")]),
    ("reset-last", [(S, RUN, "    subprocess.run(['keyd', 'bind', *bindings, 'reset'], stdout=subprocess.DEVNULL)\n")]),
    ("if-bindings", [(S, RUN, "    if bindings:\n        subprocess.run(['keyd', 'bind', 'reset', *bindings], stdout=subprocess.DEVNULL)\n")]),
    ("early", [(S, "    bindings = lookup_bindings(cls, title)\n", "    bindings = lookup_bindings(cls, title)\n    if not bindings:\n        return\n")]),
    ("early-unchanged", [(S, "    mtime = os.path.getmtime(CONFIG_PATH)\n\n    if mtime", "    if not title:\n        return\n    mtime = os.path.getmtime(CONFIG_PATH)\n\n    if mtime")]),
    ("notify", [(S, RUN, RUN + "    subprocess.run(['notify-send', cls])\n")]),
    ("log-title", [(S, RUN, RUN + "    os.system('logger ' + title)\n")]),
    ("lookup-title", [(S, "            bindings.extend(b)\n", "            bindings.extend(x.replace('%t', title) for x in b)\n")]),
    ("title-binding", [(S, RUN, "    subprocess.run(['keyd', 'bind', 'reset', *bindings, title], stdout=subprocess.DEVNULL)\n")]),
    ("env", [(S, RUN, "    os.environ['KEYD_CLASS'] = cls\n" + RUN)]),
    ("env-kw", [(S, RUN, "    subprocess.run(['keyd', 'bind', 'reset', *bindings], stdout=subprocess.DEVNULL, env={'PATH': '/usr/bin', 'T': title})\n")]),
    ("or-match", [(S, "        if fnmatch(cls, cexp) and fnmatch(title, texp):", "        if fnmatch(cls, cexp) or fnmatch(title, texp):")]),
    ("class-only", [(S, "        if fnmatch(cls, cexp) and fnmatch(title, texp):", "        if fnmatch(cls, cexp):")]),
    ("title-only", [(S, "        if fnmatch(cls, cexp) and fnmatch(title, texp):", "        if fnmatch(title, texp):")]),
    ("swapped", [(S, "        if fnmatch(cls, cexp) and fnmatch(title, texp):", "        if fnmatch(cls, texp) and fnmatch(title, cexp):")]),
    ("global-acc", [(S, "def lookup_bindings(cls, title):\n    bindings = []\n", "bindings = []\ndef lookup_bindings(cls, title):\n")]),
    ("default-acc", [(S, "def lookup_bindings(cls, title):\n    bindings = []\n", "def lookup_bindings(cls, title, bindings=[]):\n")]),
    ("shared", [(S, "            bindings = []\n            config.append", "            config.append"), (S, "    config = []\n\n    for line", "    config = []\n    bindings = []\n\n    for line")]),
    ("eval", [(S, "    if args.verbose:\n        print(f'Active", "    if eval(f'\"{cls}\" == \"root\"'):\n        pass\n    if args.verbose:\n        print(f'Active")]),
    ("kde", [(S, "                on_window_change(klass, title)", "                subprocess.run(['true', title])\n                on_window_change(klass, title)")]),
    ("fifo", [(S, "                (cls, title) = line.strip('\\n').split('\\t')\n", "                (cls, title) = line.strip('\\n').split('\\t')\n                run('echo ' + cls)\n")]),
    ("wlroots", [(S, "                windows[obj]['title'] = self.wl.read_string(payload)\n            elif", "                windows[obj]['title'] = run('echo ' + self.wl.read_string(payload))\n            elif")]),
    ("xmon", [(S, "                    cls, title = self.get_window_info(win)\n", "                    cls, title = self.get_window_info(win)\n                    run_or_die('xprop -name ' + title)\n")]),
    ("js", [(G, "			send(`${cls}	${title}\\n`);", "			send(`${cls}	${title}\\n`);\n			GLib.spawn_command_line_async(`logger ${title}`);")]),
]
REF = [
    ("argv", [(S, RUN, "    argv = ['keyd', 'bind', 'reset']\n    subprocess.run(argv + bindings, stdout=subprocess.DEVNULL)\n")]),
    ("argv2", [(S, RUN, "    subprocess.run(['keyd', 'bind', 'reset'] + lookup_bindings(cls, title), stdout=subprocess.DEVNULL)\n"), (S, "    bindings = lookup_bindings(cls, title)\n", "")]),
    ("helper", [(S, "last_mtime = os.path.getmtime(CONFIG_PATH)\ndef", "def apply(bindings):\n    subprocess.run(['keyd', 'bind', 'reset', *bindings], stdout=subprocess.DEVNULL)\n\nlast_mtime = os.path.getmtime(CONFIG_PATH)\ndef"), (S, "    bindings = lookup_bindings(cls, title)\n" + RUN, "    apply(lookup_bindings(cls, title))\n")]),
    ("inverted", [(S, "        if fnmatch(cls, cexp) and fnmatch(title, texp):\n            dbg(f'\\tMatched {cexp}|{texp}')\n            bindings.extend(b)\n", "        if not (fnmatch(cls, cexp) and fnmatch(title, texp)):\n            continue\n        dbg(f'\\tMatched {cexp}|{texp}')\n        bindings += b\n")]),
    ("nested", [(S, "        if fnmatch(cls, cexp) and fnmatch(title, texp):\n            dbg(f'\\tMatched {cexp}|{texp}')\n            bindings.extend(b)\n", "        if fnmatch(cls, cexp):\n            if fnmatch(title, texp):\n                for x in b:\n                    bindings.append(x)\n")]),
    ("comp", [(S, "    bindings = []\n    for cexp, texp, b in config:\n        if fnmatch(cls, cexp) and fnmatch(title, texp):\n            dbg(f'\\tMatched {cexp}|{texp}')\n            bindings.extend(b)\n\n    return bindings\n", "    return [x for cexp, texp, b in config if fnmatch(cls, cexp) and fnmatch(title, texp) for x in b]\n")]),
    ("flag", [(S, "        if fnmatch(cls, cexp) and fnmatch(title, texp):\n", "        matches = fnmatch(cls, cexp) and fnmatch(title, texp)\n        if matches:\n")]),
    ("match-helper", [(S, "def lookup_bindings(cls, title):", "def matches(cls, title, cexp, texp):\n    return fnmatch(cls, cexp) and fnmatch(title, texp)\n\ndef lookup_bindings(cls, title):"), (S, "        if fnmatch(cls, cexp) and fnmatch(title, texp):\n", "        if matches(cls, title, cexp, texp):\n")]),
    ("entry", [(S, "    for cexp, texp, b in config:\n", "    for entry in config:\n        cexp, texp, b = entry\n")]),
    ("reload-fn", [(S, "    if mtime != last_mtime:\n        print(CONFIG_PATH + ': Updated, reloading config...')\n        config = parse_config(CONFIG_PATH)\n        last_mtime = mtime\n", "    if mtime == last_mtime:\n        pass\n    else:\n        print(CONFIG_PATH + ': Updated, reloading config...')\n        last_mtime = mtime\n        config = parse_config(CONFIG_PATH)\n")]),
    ("parse", [(S, "            bindings = []\n            config.append((cls, title, bindings))", "            config.append((cls, title, []))\n            bindings = config[-1][2]")]),
    ("import", [(S, "import subprocess\n", "import subprocess as sp\nimport subprocess\n"), (S, "    subprocess.run(['keyd'", "    sp.run(['keyd'")]),
    ("norm", [(S, "    cls = normalize_class(cls)\n    title = normalize_title(title)\n", "    cls, title = normalize_class(cls), normalize_title(title)\n")]),
]
