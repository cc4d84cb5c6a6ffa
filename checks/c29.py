"""C29: experiment directories record the run and never overwrite another run."""
import argparse
import datetime
import json
import os
import subprocess
import sys

import numpy as np

from vlib.core import Kind

LEVEL = "exploration"
RULE = (
    "history: random sequences of prepare_output_dir calls (given and generated identifiers, with and "
    "without git, repeated identifiers, coarse time formats, hostile argument values) in scratch "
    "directories; after every call the complete file tree is compared with the tree before it: the "
    "records are parsed back and compared with what was given, and every file of an earlier run must "
    "still exist unchanged, in place or in exactly one new backup. ids: generated identifiers over "
    "commits, uncommitted changes and arguments are equal exactly when all of these are. "
    "distinct_nontrivial counts distinct (git state, identifier kind, reuse, backup option)."
)
ASSUMPTIONS = ["the git repository, if any, has at least one commit"]
ENV = dict(os.environ, GIT_AUTHOR_NAME="v", GIT_AUTHOR_EMAIL="v@v", GIT_COMMITTER_NAME="v", GIT_COMMITTER_EMAIL="v@v",
           GIT_CONFIG_NOSYSTEM="1", HOME="/nonexistent")


def git(d, *a):
    return subprocess.run(["git", "-C", d] + list(a), env=ENV, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE).stdout


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        if ".git" in ds:
            ds.remove(".git")
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d)] = None
    return out


WORDS = ["", "a b", "--x=1", "é☃", "\"q\" 'r'", "line\nbreak", "\\", "ünï", "0", "{}", "%s", "None"]


def rand_val(rng, depth=0):
    k = rng.randint(9 if depth < 2 else 6)
    if k == 0:
        return int(rng.randint(-10**9, 10**9)) * 10**6
    if k == 1:
        return float(rng.randn() * 10.0 ** rng.randint(-20, 20))
    if k == 2:
        return WORDS[rng.randint(len(WORDS))]
    if k == 3:
        return bool(rng.rand() < 0.5)
    if k == 4:
        return None
    if k == 5:
        return float("inf") if rng.rand() < 0.5 else 0
    if k == 6:
        return [rand_val(rng, depth + 1) for _ in range(rng.randint(4))]
    return {WORDS[rng.randint(len(WORDS))] + str(i): rand_val(rng, depth + 1) for i in range(rng.randint(4))}


def gen_hist(rng, tier):
    return dict(git=str(rng.choice(["no", "clean", "dirty", "staged", "both"])), calls=5, base=str(rng.choice(["none", "abs", "rel", "deep"])),
                fmt=str(rng.choice(["default", "default", "coarse"])), prog=int(rng.randint(2**31)))


def setup_git(d, kind):
    git(d, "init", "-q")
    with open(os.path.join(d, "src.py"), "w") as f:
        f.write("x = 1\n")
    git(d, "add", "src.py")
    git(d, "commit", "-qm", "first é")
    if kind in ("staged", "both"):
        with open(os.path.join(d, "src.py"), "a") as f:
            f.write("s = 3\n")
        with open(os.path.join(d, "fresh.py"), "w") as f:
            f.write("f = 4\n")
        git(d, "add", "src.py", "fresh.py")
    if kind in ("dirty", "both"):
        with open(os.path.join(d, "src.py"), "a") as f:
            f.write("y = 2  # \u2603\n")


def check_hist(p, obs):
    from pfrl.experiments import prepare_output_dir

    rng = np.random.RandomState(p["prog"])
    root = os.path.realpath(obs.tmpdir())
    cwd0, env0, argv0 = os.getcwd(), dict(os.environ), list(sys.argv)
    try:
        os.chdir(root)
        for k in list(os.environ):
            if k.startswith("GIT_"):
                del os.environ[k]
        os.environ["GIT_CEILING_DIRECTORIES"] = os.path.dirname(root)
        if p["git"] != "no":
            setup_git(root, p["git"])
        basedir = {"none": None, "abs": os.path.join(root, "res ults"), "rel": "out", "deep": "a/b/c"}[p["base"]]
        os.makedirs(os.path.join(root, "out"), exist_ok=True) if p["base"] == "rel" and rng.rand() < 0.5 else None
        starts = {}
        used = {}
        for call in range(p["calls"]):
            args = {("k%d" % i): rand_val(rng) for i in range(rng.randint(5))}
            given = argparse.Namespace(**args) if rng.rand() < 0.5 else dict(args)
            argv = None if rng.rand() < 0.3 else ["prog.py"] + [WORDS[rng.randint(len(WORDS))] for _ in range(rng.choice([0, 1, 3, 9]))]
            sys.argv[:] = ["main.py", "--n", str(rng.randint(3))]
            cmd = list(sys.argv) if argv is None else list(argv)
            exp = None if rng.rand() < 0.4 else str(rng.choice(["run1", "run1", "run2", "r u n"]))
            backup = bool(rng.rand() < 0.75)
            os.environ["VERIF_NOTE"] = "é=%d\n" % call
            kw = {}
            if p["fmt"] == "coarse":
                kw["time_format"] = "%Y"
            before = tree(root)
            t0 = datetime.datetime.now()
            out = prepare_output_dir(given, basedir=basedir, exp_id=exp, argv=argv, make_backup=backup, **kw)
            t1 = datetime.datetime.now()
            obs.n("calls")
            obs.require(isinstance(out, str) and os.path.isdir(out), lambda: "%r is not an existing directory" % (out,))
            real = os.path.realpath(out)
            want_parent = os.path.realpath(basedir or ".")
            obs.require(os.path.dirname(real) == want_parent, lambda: "%s is not below the base directory" % out)
            if exp is not None:
                obs.require(os.path.basename(real) == exp, "directory not named by the given identifier")
            # the records
            rd = lambda n: open(os.path.join(out, n), "rb").read().decode("utf-8", "surrogateescape")
            got = json.loads(rd("args.txt"))
            obs.require(got == args, lambda: "args.txt has %r, given were %r" % (got, args))
            obs.require(args == (vars(given) if isinstance(given, argparse.Namespace) else given), "the given arguments were modified")
            obs.require(json.loads(rd("environ.txt")) == dict(os.environ), "environ.txt is not the environment")
            c = rd("command.txt")
            obs.require(c == " ".join(cmd), lambda: "command.txt has %r, the command is %r" % (c, cmd))
            lines = rd("start.txt").splitlines()
            ts = datetime.datetime.strptime(lines[-1], "%Y%m%dT%H%M%S.%f")
            obs.require(t0 - datetime.timedelta(seconds=1) <= ts <= t1 + datetime.timedelta(seconds=1), "start.txt is not the time of the start")
            gf = ["git-head.txt", "git-status.txt", "git-log.txt", "git-diff.txt"]
            if p["git"] != "no":
                obs.require(rd(gf[0]).strip() == git(root, "rev-parse", "HEAD").decode().strip(), "git-head.txt")
                obs.require(rd(gf[3]).encode("utf-8", "surrogateescape") == git(root, "diff", "HEAD"), "git-diff.txt is not the difference from HEAD")
                obs.require(rd(gf[2]).encode("utf-8", "surrogateescape") == git(root, "log"), "git-log.txt is not the log")
                st = rd(gf[1])
                for l in git(root, "status", "--porcelain").decode().splitlines():
                    if not l.startswith("??"):
                        obs.require(l[3:] in st, lambda: "git-status.txt does not show the state %r" % l)
                obs.require(len(st) > 0, "git-status.txt is empty")
            # nothing lost
            after = tree(root)
            rel = os.path.relpath(real, root)
            reused = rel in before
            inside = {k[len(rel) + 1:]: v for k, v in before.items() if k.startswith(rel + os.sep)}
            for k, v in before.items():
                if not (k == rel or k.startswith(rel + os.sep)):
                    obs.require(k in after and after[k] == v, lambda: "%s, outside of the run's directory, was changed" % k)
            rec = {"args.txt", "environ.txt", "command.txt", "start.txt"} | set(gf)
            for k, v in inside.items():
                if k in rec:
                    continue
                obs.require(after.get(os.path.join(rel, k), 0) == v, lambda: "file %s of the earlier run was changed" % k)
            new_dirs = sorted(k for k in after if k not in before and after[k] is None and os.path.dirname(k) == os.path.dirname(rel) and k != rel)
            if reused and backup:
                obs.require(len(new_dirs) == 1, lambda: "backups made: %s" % new_dirs)
                b = new_dirs[0]
                binside = {k[len(b) + 1:]: v for k, v in after.items() if k.startswith(b + os.sep)}
                obs.require(binside == inside, lambda: "the backup differs from the earlier run: %s" % sorted(set(binside) ^ set(inside)))
                obs.n("backups")
            else:
                obs.require(new_dirs == [], lambda: "unexpected directories %s" % new_dirs)
            if reused:
                obs.require(lines[:-1] == starts.get(rel, lines[:-1]), "earlier starts are lost")
            starts[rel] = lines
            # generated identifiers
            if exp is None:
                key = (git(root, "rev-parse", "HEAD"), git(root, "diff", "HEAD"), tuple(cmd)) if p["git"] != "no" else None
                if p["git"] != "no":
                    for k2, r2 in used.items():
                        if k2 != key:
                            obs.require(r2 != rel, lambda: "runs of %s and %s share a directory" % (k2, key))
                    used[key] = rel
                elif p["fmt"] == "default":
                    obs.require(not reused, "two runs without identifier share a directory")
            # the run writes something: also files that one might be tempted to leave out
            for n in (".hidden", "a.tmp", "x.pyc", "old.backup", "start.txt.bak", "sub/empty", "__pycache__/m", "big.log"):
                if rng.rand() < 0.4:
                    os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
                    with open(os.path.join(out, n), "wb") as f:
                        f.write(bytes(rng.randint(0, 256, 0 if n == "sub/empty" else 20, dtype=np.uint8)))
            if rng.rand() < 0.3:
                os.makedirs(os.path.join(out, "nothing", "inside"), exist_ok=True)
            # the source changes before the next run
            if p["git"] != "no" and rng.rand() < 0.4:
                with open(os.path.join(root, "src.py"), "w") as f:
                    f.write("x = %d\n" % rng.randint(3))
                if rng.rand() < 0.5:
                    git(root, "add", "src.py")
                if rng.rand() < 0.3:
                    git(root, "commit", "-q", "--allow-empty", "-m", "more")
                obs.n("source_changes")
            os.makedirs(os.path.join(out, "sub"), exist_ok=True)
            with open(os.path.join(out, "sub", "model%d.pt" % call), "wb") as f:
                f.write(bytes(rng.randint(0, 256, 50, dtype=np.uint8)))
            with open(os.path.join(out, "scores.txt"), "a") as f:
                f.write("%d\n" % call)
            obs.sig(p["git"], exp is None, reused, backup, p["base"], p["fmt"], argv is None)
    finally:
        os.chdir(cwd0)
        os.environ.clear()
        os.environ.update(env0)
        sys.argv[:] = argv0


def gen_ids(rng, tier):
    return dict(prog=int(rng.randint(2**31)))


def check_ids(p, obs):
    from pfrl.experiments import generate_exp_id

    rng = np.random.RandomState(p["prog"])
    root = os.path.realpath(obs.tmpdir())
    cwd0 = os.getcwd()
    try:
        os.chdir(root)
        try:
            generate_exp_id(argv=["x"])
            ok = False
        except RuntimeError:
            ok = True
        obs.require(ok, "an identifier was generated without git")
        setup_git(root, "clean")
        seen = {}
        for i in range(10):
            if rng.rand() < 0.25:
                with open("src.py", "a") as f:
                    f.write("z = %d\n" % rng.randint(3))
                git(root, "commit", "--allow-empty", "-qam", "c%d" % i)
            body = "x = 1\n" * rng.randint(1, 3)
            if rng.rand() < 0.4:
                with open("src.py", "w") as f:
                    f.write(body)
            if rng.rand() < 0.3:
                # changes staged for the next commit: a modification, or a new file
                if rng.rand() < 0.5:
                    with open("src.py", "w") as f:
                        f.write("y = %d\n" % rng.randint(3))
                    git(root, "add", "src.py")
                    if rng.rand() < 0.3:  # and then changed back or further
                        with open("src.py", "w") as f:
                            f.write(body)
                else:
                    with open("new.py", "w") as f:
                        f.write("n = %d\n" % rng.randint(3))
                    git(root, "add", "new.py")
                obs.n("staged_changes")
            argv = ["prog"] + ["--%s=%d" % ("abc"[rng.randint(3)], rng.randint(2)) for _ in range(rng.randint(3))]
            prefix = [None, None, "pre", "other"][rng.randint(4)]
            key = (git(root, "rev-parse", "HEAD"), git(root, "diff", "HEAD"), tuple(argv), prefix)
            e = generate_exp_id(prefix=prefix, argv=list(argv))
            e2 = generate_exp_id(prefix=prefix, argv=["%s" % a for a in argv])
            obs.require(isinstance(e, str) and e == e2, "the identifier is not reproducible")
            obs.require(os.sep not in e and "\0" not in e, "not usable as a directory name")
            if prefix:
                obs.require(e.startswith(prefix), "prefix missing")
            for k2, x2 in seen.items():
                obs.require((k2 == key) == (x2 == e), lambda: "identifiers of %s and %s are %s and %s" % (k2, key, x2, e))
            seen[key] = e
            obs.n("ids")
        obs.sig("ids", len(seen))
    finally:
        os.chdir(cwd0)


KINDS = [
    Kind("history", gen_hist, check_hist, 400, 4000),
    Kind("ids", gen_ids, check_ids, 80, 800),
]
