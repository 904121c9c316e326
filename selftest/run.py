#!/usr/bin/env python3
"""run.py [ID ...]: self-test of the checks. selftest/<id>.py lists MUT (edits that break the property: the check must alarm) and
REF (edits that keep the behaviour: it must stay quiet), each (name, [(file, old, new), ...]). Works on scratch copies only."""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"


def one(job):
    pid, kind, name, edits, build = job
    tmp = tempfile.mkdtemp(prefix="kst")
    try:
        for x in os.listdir(REPO):
            if x in (".git", "bin"):
                continue
            s = os.path.join(REPO, x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy2)(s, os.path.join(tmp, x))
        for f, a, b in edits:
            p = os.path.join(tmp, f)
            t = open(p).read()
            if t.count(a) < 1:
                return (pid, kind, name, "EDIT-FAILED " + repr(a)[:60])
            t = t.replace(a, b, 1) if not (a.startswith("@all")) else t.replace(a[4:], b)
            open(p, "w").write(t)
        c = subprocess.run("make -s >/dev/null 2>err.txt || (cat err.txt; exit 1)", shell=True, cwd=tmp, capture_output=True, text=True) if build else None
        if c is not None and c.returncode:
            return (pid, kind, name, "NO-COMPILE " + (c.stdout + c.stderr)[-300:])
        ve = os.path.join(tmp, "_v")
        os.mkdir(ve)
        for d in ("check.py", "lib", "checks", "known_findings.txt"):
            os.symlink(os.path.join(os.path.dirname(here), d), os.path.join(ve, d))
        r = subprocess.run([sys.executable, os.path.join(ve, "check.py"), pid], env=dict(os.environ, VERIF_REPO=tmp, VERIF_SERIAL="1", VERIF_EVDIR=os.path.join(tmp, "_e")),
                           capture_output=True, text=True)
        ok = (r.returncode == 1) if kind == "MUT" else (r.returncode == 0)
        return (pid, kind, name, "ok" if ok else f"FAIL rc={r.returncode}", r.stdout[-700:] + r.stderr[-500:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(f[:-3].upper() for f in os.listdir(here) if f.endswith(".py") and f != "run.py" and f != "common.py")
    verbose = "-v" in sys.argv
    only = [a[2:] for a in sys.argv if a.startswith("-k")]
    jobs = []
    sys.path.insert(0, here)
    import common
    for i in ids:
        p = os.path.join(here, i.lower() + ".py")
        if not os.path.exists(p):
            continue
        sp = importlib.util.spec_from_file_location(i, p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for k in ("MUT", "REF"):
            for n, e in getattr(m, k, []):
                jobs.append((i, k, n, e, True))
        if "-noref" not in sys.argv:
            for n, e in common.REF:
                jobs.append((i, "REF", "common:" + n, e, True))
    if only:
        jobs = [j for j in jobs if any(o in j[2] for o in only)]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs):
            good = r[3] == "ok"
            bad += not good
            if (not good and bad < 9) or verbose:
                print(*r[:4])
                if len(r) > 4:
                    print("     " + r[4].strip().replace("\n", "\n     "))
    print(f"{len(jobs)} cases, {bad} unexpected")


main()
