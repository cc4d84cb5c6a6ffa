"""Planted bugs: (re)generates seeded/<id>/ and validates them in a scratch copy.

  plants.py gen            write seeded/*
  plants.py demo [ids]     run each demo with and without the patch (scratch copy)
  plants.py catch [ids]    run the property's quick check against each patch (scratch copy)
  plants.py tests ids...   run the repository's tests with all these patches at once

Not used by any check.
"""
import json
import os
import shutil
import subprocess
import sys
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
W = os.environ.get("PLANT_W", "/tmp/plantw%d" % os.getpid())
BUGS = {}


def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS[id] = dict(prop=prop, edits=edits, demo=textwrap.dedent(demo).lstrip(), needs=needs, breaks=breaks)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def fresh():
    if os.path.exists(W):
        shutil.rmtree(W)
    r = sh("cp -a /repo %s && git -C %s checkout -q -- . && git -C %s status --short" % (W, W, W))
    assert r.returncode == 0 and not r.stdout.strip(), (r.stdout, r.stderr)


def edit(b):
    for path, old, new in b["edits"]:
        p = os.path.join(W, path)
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))


def reset():
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq" % (W, W))


def gen(ids):
    fresh()
    for i in ids:
        b = BUGS[i]
        try:
            edit(b)
        except AssertionError as e:
            raise SystemExit("%s: %s" % (i, e))
        diff = sh("git -C %s diff" % W).stdout
        assert diff
        reset()
        d = os.path.join(SEEDED, i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\n# exit 0: behaviour as documented\nexport PYTHONPATH="$PWD" OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
    for d in os.listdir(SEEDED):
        if d not in BUGS:
            print("stale", d)


def demo(ids):
    fresh()
    bad = []
    for i in ids:
        b = BUGS[i]
        cmd = "cd %s && timeout 290 bash %s/%s/demo.sh" % (W, SEEDED, i)
        r0 = sh(cmd)
        assert sh("git -C %s apply %s/%s/patch.diff" % (W, SEEDED, i)).returncode == 0, i
        r1 = sh(cmd)
        reset()
        ok = r0.returncode == 0 and r1.returncode not in (0, 124)
        print(i, "ok" if ok else "BAD", r0.returncode, r1.returncode, (r1.stdout + r1.stderr).strip()[-100:].replace("\n", " "), flush=True)
        if not ok:
            print(r0.stdout[-500:], r0.stderr[-1500:])
            bad.append(i)
    print("bad:", bad)


def catch(ids):
    fresh()
    missed = []
    for i in ids:
        b = BUGS[i]
        assert sh("git -C %s apply %s/%s/patch.diff" % (W, SEEDED, i)).returncode == 0, i
        r = sh("VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick bash %s/check.sh %s" % (W, ROOT, b["prop"]))
        reset()
        hit = r.returncode == 1 and "VIOLATION property=%s " % b["prop"] in r.stdout
        print(i, b["prop"], "CAUGHT" if hit else "MISSED rc=%d" % r.returncode,
              r.stdout.strip().splitlines()[1:2] if hit else r.stdout[-300:], flush=True)
        if not hit:
            missed.append(i)
    print("missed:", missed)


def tests(ids):
    """Groups of PLANT_GROUP bugs at once (conflicting edits in later rounds); a group that loses tests is split."""
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    t = open("/opt/vp/test.sh").read().replace("/repo", W).replace("run sync 660", "run sync ${SYNC_S:-660}")
    open(W + "_test.sh", "w").write(t)
    g = int(os.environ.get("PLANT_GROUP", "8"))
    todo = [ids[k:k + g] for k in range(0, len(ids), g)]
    while todo:
        fresh()
        done, later = [], []
        for i in todo.pop(0):
            r = sh("git -C %s apply %s/%s/patch.diff" % (W, SEEDED, i))
            (later if r.returncode else done).append(i)
        assert done
        sh("SYNC_S=%d bash %s_test.sh %s.json >/dev/null 2>&1" % (660 if len(done) == 1 else 330, W, W))
        lost = sorted(base - set(json.load(open(W + ".json"))["passed"]))
        print("tests with", done, "lost %d:" % len(lost), lost[:4], flush=True)
        if later:
            todo.append(later)
        if lost and len(done) > 1:
            h = len(done) // 2
            todo += [done[:h], done[h:]]
    for f in (W + ".json", W + "_test.sh"):
        os.remove(f)


def main():
    import plants_defs  # noqa
    cmd = sys.argv[1]
    ids = []
    for a in sys.argv[2:]:
        ids += [i for i in BUGS if i == a or BUGS[i]["prop"] == a]
    ids = ids or sorted(BUGS)
    try:
        dict(gen=gen, demo=demo, catch=catch, tests=tests)[cmd](ids)
    finally:
        shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    sys.modules["plants"] = sys.modules["__main__"]
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    main()
