#!/usr/bin/env python3
"""seedtool.py [--tests] [--nocheck] [ID...]: (re)creates planted bugs from tools/plants/*.py in a scratch copy of /repo,
confirms each (builds, demo quiet on the clean tree and failing on the changed one, optionally the stable tests),
files it under seeded/ID and runs the check of its property against it."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R0 = os.environ.get("SEED_REPO", "/repo")
PL = []
class Plant(dict): pass
def plant(id, prop, edits, demo, needs, breaks, lib=True, flags=""):
    PL.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, lib=lib, flags=flags))
def load():
    for f in sorted(glob.glob(os.path.join(H, "tools/plants/*.py"))):
        exec(compile(open(f).read(), f, "exec"), dict(plant=plant))
HEAD = '''package demo

import (
	"testing"
%s)

func TestDemo(t *testing.T) {
	run(t, func() {
%s
	})
}
'''
IMPORTS = [("fmt.", '"fmt"'), ("time.", '"time"'), ("sync.", '"sync"'), ("errors.", '"errors"'), ("os.", '"os"'), ("runtime.", '"runtime"'),
           ("atomic.", '"sync/atomic"'), ("json.", '"encoding/json"'),
           ("pc.", 'pc "github.com/weedbox/pokercompetition"'), ("pokertable.", '"github.com/weedbox/pokertable"'), ("pokerface.", '"github.com/weedbox/pokerface"'),
           ("actor.", '"github.com/weedbox/pokercompetition/actor"'), ("blind.", 'pokerblind "github.com/weedbox/pokercompetition/blind"'), ("synctest.", '"testing/synctest"')]
def imports(body):
    out = ""
    for k, v in IMPORTS:
        name = k if k != "blind." else "pokerblind."
        if re.search(r"(?<![\w.])" + re.escape(name), body):
            out += "\t%s\n" % v
    return out
def one(p, tests, check):
    log = []
    d = os.path.join(H, "seeded", p["id"])
    w = tempfile.mkdtemp(prefix="plant-%s-" % p["id"], dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        shutil.copytree(R0, r, symlinks=True)
        for f, a, b in p["edits"]:
            fn = os.path.join(r, f)
            s = open(fn).read()
            if s.count(a) != 1:
                return "%s: %d matches of %r in %s" % (p["id"], s.count(a), a[:60], f), False
            open(fn, "w").write(s.replace(a, b))
        b = subprocess.run(["gofmt", "-l", "."], cwd=r, capture_output=True, text=True)
        if b.stdout.strip():
            subprocess.run(["gofmt", "-w"] + [x for x in b.stdout.split() if any(x == e[0] for e in p["edits"])], cwd=r)
        b = subprocess.run(["go", "build", "./..."], cwd=r, capture_output=True, text=True)
        if b.returncode:
            return "%s: does not build\n%s" % (p["id"], b.stderr), False
        b = subprocess.run(["go", "vet", "."], cwd=r, capture_output=True, text=True)
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        body = p["demo"]
        if not body.lstrip().startswith("package"):
            extra = ""
            if "\n// ---\n" in body:
                extra, body = body.split("\n// ---\n")
            src = HEAD % (imports(extra + body), body)
            src += extra
        else:
            src = body
        open(os.path.join(d, "demo_test.go"), "w").write(src)
        subprocess.run(["gofmt", "-w", os.path.join(d, "demo_test.go")])
        for x in ("lib_test.go", "lib2_test.go", "demo.sh"):
            if p["lib"] or x == "demo.sh":
                shutil.copy(os.path.join(H, "tools/seed", x), d)
        if p["flags"]:
            s = open(os.path.join(d, "demo.sh")).read()
            open(os.path.join(d, "demo.sh"), "w").write(s.replace("$DEMO_FLAGS", p["flags"]))
        json.dump(dict(property=p["prop"], needs=p["needs"], what_it_breaks=p["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        c = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=R0, capture_output=True, text=True)
        x = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
        ok = c.returncode == 0 and x.returncode != 0 and ("BROKEN" in x.stdout + x.stderr or "panic: " in x.stdout + x.stderr)
        log.append("%s (%s): demo clean=%d planted=%d %s" % (p["id"], p["prop"], c.returncode, x.returncode, "" if ok else "!!!! demo\n" + c.stdout[-1500:] + c.stderr[-1500:] + "\n---\n" + x.stdout[-1500:] + x.stderr[-1500:]))
        m = re.search(r"(BROKEN|panic: ).*", x.stdout + x.stderr)
        if m:
            log.append("   " + m.group(0)[:200])
        if tests:
            # the stable tests, without cached results
            base = json.load(open("/opt/vp/BASELINE.json"))
            t = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=r, capture_output=True, text=True)
            failed = set()
            for l in t.stdout.splitlines():
                try: e = json.loads(l)
                except ValueError: continue
                if e.get("Action") == "fail" and e.get("Test"): failed.add(e["Test"])
            log.append("   tests failed: %s" % sorted(failed))
        if check:
            e = dict(os.environ, VERIF_DEV_REPO=r, VERIF_DEV_REPLAYS=w, VERIF_SEED="1", VERIF_TIER="quick")
            k = subprocess.run([os.path.join(H, "check"), p["prop"]], env=e, capture_output=True, text=True)
            lines = [l for l in k.stdout.splitlines() if l.startswith("  case") or l.startswith("ERROR")]
            log.append("   check %s rc=%d %s" % (p["prop"], k.returncode, "CAUGHT" if k.returncode == 1 else "NOT CAUGHT  <<<<<<"))
            log += ["     " + l[:260] for l in lines[:2]]
            if k.returncode == 2: log.append(k.stdout[-1500:])
        return "\n".join(log), ok
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    load()
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    for p in PL:
        if a and not any(re.fullmatch(x, p["id"]) for x in a):
            continue
        s, ok = one(p, "--tests" in sys.argv, "--nocheck" not in sys.argv)
        print(s, flush=True)
