"""Probe bugs: small edits, each breaking a property, to see whether its check notices.

  probes.py run [names or properties...]   (niced; results appended to PROBE_OUT, default /tmp/probes.jsonl)

Unlike seeded/ these have no demonstration; they only guide the strengthening of checks. Not used by any check.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PROBES = {}


def probe(name, prop, *edits):
    assert name not in PROBES, name
    if isinstance(edits[0], str):
        edits = [edits]
    PROBES[name] = (prop, [tuple(e) for e in edits])


def run(names):
    W = os.environ.get("PROBE_W", "/tmp/probew%d" % os.getpid())
    out = os.environ.get("PROBE_OUT", "/tmp/probes.jsonl")
    verif = os.environ.get("PROBE_VERIF", ROOT)
    subprocess.run("rm -rf %s && cp -a /repo %s" % (W, W), shell=True, check=True)
    for n in names:
        prop, edits = PROBES[n]
        subprocess.run("git -C %s checkout -q -- ." % W, shell=True, check=True)
        bad = None
        for path, old, new in edits:
            p = os.path.join(W, "pfrl", path)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "edit matches %d times in %s" % (s.count(old), path)
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(n, prop, "BAD", bad, flush=True)
            continue
        env = dict(os.environ, VERIF_REPO=W, VERIF_SEED="1")
        env.setdefault("VERIF_WORKERS", "3")
        t = time.time()
        r = subprocess.run(["nice", "-n", "19", os.path.join(verif, "check.sh"), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=verif)
        lines = r.stdout.splitlines()
        res = "CAUGHT" if r.returncode == 1 and any("VIOLATION property=" + prop in x for x in lines) else "MISSED rc=%d" % r.returncode
        msg = next((x for x in lines if x.startswith("  [")), "")[:200]
        print(n, prop, res, "%.0fs" % (time.time() - t), msg, flush=True)
        with open(out, "a") as f:
            f.write(json.dumps(dict(name=n, prop=prop, res=res, msg=msg)) + "\n")
    subprocess.run("rm -rf %s" % W, shell=True)


if __name__ == "__main__":
    sys.modules["probes"] = sys.modules["__main__"]
    sys.path.insert(0, HERE)
    import probes_defs  # noqa

    sel = sys.argv[2:]
    run([n for n, (p, _) in PROBES.items() if not sel or n in sel or p in sel or any(n.startswith(s) for s in sel)])
