#!/usr/bin/env python3
"""seed.py ID PROPERTY FILE(relative to syncanysql/) : plants one bug from stdin (JSON: old,new[,edits],demo,needs,breaks),
confirms it in a scratch copy of /repo (tests pass, demo passes without and fails with the change) and records it under
/verif/seeded/ID.  With no stdin demo, the demo body is Python run with the helper q/x/qs below."""
import json, os, shutil, subprocess, sys, tempfile

HELP = '''import os, sys, tempfile, shutil, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
REPO = os.getcwd()
sys.path.insert(0, REPO)
TMP = tempfile.mkdtemp(prefix="seeddemo")
import atexit
atexit.register(shutil.rmtree, TMP, True)
os.environ["HOME"] = TMP
os.chdir(TMP)
from syncanysql import ScriptEngine


def q(sql, name="r", config=None):
    """rows of the memory table `name` after running the script"""
    with ScriptEngine(dict({"loglevel": "CRITICAL"}, **(config or {}))) as e:
        with e.context() as c:
            c.execute(sql)
            return c.get_memory_datas(name)


def x(expr):
    """value of a SQL expression"""
    return q("insert into r select %s as v" % expr)[0]["v"]


'''
SH = '''#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
exec timeout 120 /opt/venv/bin/python "$HERE/demo.py"
'''


def run(cmd, cwd, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTHONHASHSEED="0")
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)


def main():
    sid, prop = sys.argv[1:3]
    spec = json.load(sys.stdin) if len(sys.argv) < 4 else None
    if spec is None:
        ns = {}
        exec(open(sys.argv[3]).read(), ns)
        spec = ns["BUGS"][sid]
    out = "/verif/seeded/" + sid
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        os.makedirs(out, exist_ok=True)
        with open(out + "/demo.py", "w") as fp:
            fp.write(HELP + spec["demo"].strip() + "\n")
        with open(out + "/demo.sh", "w") as fp:
            fp.write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        r = run(["bash", out + "/demo.sh"], copy)
        if r.returncode:
            sys.exit("%s: demo fails on the unchanged tree:\n%s" % (sid, (r.stdout + r.stderr)[-1500:]))
        for f, old, new in spec["edits"]:
            p = os.path.join(copy, "syncanysql", f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches of %r in %s" % (sid, s.count(old), old, f))
            open(p, "w").write(s.replace(old, new))
        d = run(["git", "diff"], copy).stdout
        # lines must be the original repository's
        base = run(["git", "rev-parse", "cb74ee9"], copy).stdout.strip()
        for f in {e[0] for e in spec["edits"]}:
            bl = run(["git", "blame", "-s", "-l", "HEAD", "--", "syncanysql/" + f], copy).stdout.splitlines()
            cur = None
            for line in d.splitlines():
                if line.startswith("--- a/"):
                    cur = line[6:] == "syncanysql/" + f
                elif line.startswith("@@") and cur:
                    n = int(line.split()[1][1:].split(",")[0]) - 1
                elif cur and line.startswith("-"):
                    n += 1
                    h = bl[n - 1].split()[0].lstrip("^")
                    if run(["git", "merge-base", "--is-ancestor", h, base], copy).returncode and h != base[:len(h)]:
                        print("%s: WARNING removes a line added by our commit %s: %s" % (sid, h[:7], line))
                elif cur and line.startswith(" "):
                    n += 1
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "tests", "-p", "no:cacheprovider"], copy)
        if t.returncode:
            sys.exit("%s: tests fail: %s" % (sid, t.stdout[-800:]))
        r = run(["bash", out + "/demo.sh"], copy)
        if not r.returncode:
            sys.exit("%s: demo passes with the bug" % sid)
        with open(out + "/patch.diff", "w") as fp:
            fp.write(d)
        with open(out + "/meta.json", "w") as fp:
            json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, fp, indent=1)
            fp.write("\n")
        e = dict(os.environ, VERIF_REPO=copy)
        c = subprocess.run(["python3", "run.py", prop, "quick"], cwd="/verif", env=e, capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%s: kept (%s); check %s: exit %d %s" % (sid, (r.stderr.strip().splitlines() or ["?"])[-1][:120], prop, c.returncode, v or c.stdout[-200:]))
    finally:
        shutil.rmtree(tmp, True)


main()
