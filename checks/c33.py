"""C33: pretrained models are complete, downloaded once and survive faults."""
import hashlib
import io
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import zipfile

import numpy as np

from vlib.core import Kind

LEVEL = "fault_enumeration"
RULE = (
    "A loopback HTTP server serves generated archives from a separate process, logs every request and misbehaves on a "
    "script (errors, truncated bodies, resets, slow bodies). history: random sequences of downloads of several models in forked children. "
    "crash / error: the child is killed (or a file operation fails) at the k-th file operation below the models directory, for every k until the "
    "download completes undisturbed; a fresh process must then deliver the complete model. concurrent: several "
    "processes ask for the same and different models at once under injected delays at file operations. After every "
    "call the returned directory is compared with the archive, and the request log with the models delivered. distinct_nontrivial counts "
    "distinct (history of faults and calls) and (crash point, operation)."
)
TYPES = {"DQN": ["best", "final"], "IQN": ["best", "final"], "Rainbow": ["best", "final"], "A3C": ["best", "final"], "DDPG": ["best", "final"],
         "TRPO": ["best", "final"], "PPO": ["final"], "TD3": ["best", "final"], "SAC": ["best", "final"]}
FILEOPS = {"open", "os.rename", "os.mkdir", "os.remove", "os.rmdir", "shutil.move", "shutil.rmtree", "shutil.copyfile", "shutil.copytree", "os.link", "os.symlink", "os.truncate"}
LIMIT = 60


def files_of(seed, alg, env, typ):
    rng = random.Random("%d|%s|%s|%s" % (seed, alg, env, typ))
    out = {}
    for i in range(rng.randint(1, 4)):
        name = rng.choice(["model.pt", "optimizer.pt", "sub/deep/x.pt", "scores.txt", "replay.pkl"]) if i else "model.pt"
        out[name] = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 10, 3000, 40000])))
    return out


def archive(seed, alg, env, typ):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for n, d in sorted(files_of(seed, alg, env, typ).items()):
            z.writestr(zipfile.ZipInfo("%s/%s" % (typ, n)), d)
    return b.getvalue()


# ---------------------------------------------------------------- processes
def fork(fn):
    """Run fn(write) in a child; returns (pid, read end)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(nul, 1)
            fn(w)
            code = 0
        except BaseException as e:  # noqa
            try:
                os.write(w, pickle.dumps(("harness", repr(e), None)))
            except BaseException:  # noqa
                pass
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def collect(pid, r, limit=LIMIT):
    """Returns (payload or None, wait status, timed out)."""
    buf, end, late = b"", time.time() + limit, False
    while True:
        left = end - time.time()
        if left <= 0:
            late = True
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], left)[0]:
            d = os.read(r, 65536)
            if not d:
                break
            buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return (pickle.loads(buf) if buf else None), st, late


def server(root, seed, script):
    """Starts the server process; returns (pid, port)."""
    import http.server

    log = os.path.join(root, "requests.log")
    open(log, "w").close()

    def run(w):
        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                with open(log) as f:
                    k = len(f.readlines())
                fault = script[k] if k < len(script) else "ok"
                with open(log, "a") as f:
                    f.write(json.dumps([self.path, fault]) + "\n")
                parts = self.path.strip("/").split("/")
                if fault in ("404", "500") or len(parts) != 4 or not parts[3].endswith(".zip"):
                    self.send_error(500 if fault == "500" else 404)
                    return
                body = archive(seed, parts[1], parts[2], parts[3][:-4])
                self.send_response(200)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                if fault == "truncate":
                    body = body[:len(body) // 2]
                elif fault == "empty":
                    body = b""
                elif fault == "reset":
                    import socket
                    import struct

                    self.wfile.write(body[:7])
                    self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    self.connection.close()
                    return
                elif fault == "slow":
                    for i in range(5):
                        self.wfile.write(body[i * len(body) // 5:(i + 1) * len(body) // 5])
                        self.wfile.flush()
                        time.sleep(0.02)
                    return
                self.wfile.write(body)

            def log_message(self, *a):
                pass

        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 2)
        s = http.server.HTTPServer(("127.0.0.1", 0), H)
        os.write(w, pickle.dumps(s.server_address[1]))
        signal.alarm(600)
        s.serve_forever()

    pid, r = fork(run)
    port = pickle.loads(os.read(r, 4096))
    os.close(r)
    return pid, port


def requests(root):
    with open(os.path.join(root, "requests.log")) as f:
        return [json.loads(x) for x in f]


def load():
    """A fresh instance of the module (it reads its root from the environment)."""
    import importlib.util

    import pfrl

    path = os.path.join(os.path.dirname(pfrl.__file__), "utils", "pretrained_models.py")
    spec = importlib.util.spec_from_file_location("pfrl.utils._pretrained_probe", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def tree(path):
    out = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.relpath(os.path.join(d, f), path)] = h.read()
    return out


def digest(t):
    return hashlib.md5(repr(sorted((k, hashlib.md5(v).hexdigest()) for k, v in t.items())).encode()).hexdigest()


class Boom(OSError):
    pass


def call(root, port, alg, env, typ, how, crash=None, error=None, delays=None, kill_after=None):
    """A download in a child. Returns ('ok', (path, cached, digest), events) / ('exc', name, events)."""
    models = os.path.join(root, "models")

    def run(w):
        sys.dont_write_bytecode = True
        os.environ["PFRL_MODELS_ROOT"] = models
        for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
            os.environ.pop(k, None)
        os.environ["no_proxy"] = "*"
        import urllib.request  # noqa

        m = load()
        n = [0]
        armed = [True]
        last = [""]
        rng = random.Random(delays)
        mine = os.path.realpath(root)

        def hook(ev, args):
            if not armed[0] or ev not in FILEOPS:
                return
            p = args[0]
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if not isinstance(p, str):
                return
            inside = not os.path.isabs(p) or os.path.realpath(p).startswith(mine)
            if not inside:
                if ev != "open" or (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR)) and not p.startswith("/dev/"):
                    armed[0] = False
                    os.write(w, pickle.dumps(("escape", "%s %s" % (ev, p), None)))
                    os._exit(78)
                return
            n[0] += 1
            last[0] = ev
            if delays is not None and rng.random() < 0.4:
                time.sleep(rng.random() * 0.01)
            if crash is not None and n[0] == crash:
                os.kill(os.getpid(), signal.SIGKILL)
            if error is not None and n[0] == error:
                raise Boom(28, "injected: no space left on device", p)

        sys.addaudithook(hook)
        try:
            url = "http://127.0.0.1:%d/a/" % port
            if how == "model":
                m.download_url = url
                path, cached = m.download_model(alg, env, model_type=typ)
            elif how == "default":
                m.download_url = url
                path, cached = m.download_model(alg, env)
            else:
                path, cached = m.download_and_store_model(alg, url, env, typ)
            t = tree(path) if os.path.isdir(path) else {}
            armed[0] = False
            out = ("ok", (path, cached, digest(t), sorted(t)), n[0])
        except Exception as e:
            armed[0] = False
            out = ("exc", "%s: %s" % (type(e).__name__, str(e)[:200]), n[0])
        os.write(w, pickle.dumps(out))

    pid, r = fork(run)
    if kill_after is not None:
        time.sleep(kill_after)
        os.kill(pid, signal.SIGKILL)
    return pid, r


def settle(obs, pr, what):
    out, st, late = collect(*pr)
    obs.require(not late, lambda: "%s: the call did not return within %d s" % (what, LIMIT))
    if out is not None and out[0] == "harness":
        raise RuntimeError("harness: %s" % (out,))
    obs.require(out is None or out[0] != "escape", lambda: "%s: touched a file outside of the models directory (%s)" % (what, out[1]))
    return out, st


def complete(obs, p, root, out, key, what, cached=None):
    alg, env, typ = key
    obs.require(out is not None and out[0] == "ok", lambda: "%s: %s" % (what, out))
    path, c, dg, names = out[1]
    want = os.path.join(root, "models", alg, env, typ)
    obs.require(os.path.realpath(path) == os.path.realpath(want), lambda: "%s: stored at %s" % (what, path))
    obs.require(dg == digest(files_of(p["seed"], *key)), lambda: "%s: the model delivered (cached: %s) holds %s, which is not the complete model" % (what, c, names))
    if cached is not None:
        obs.require(bool(c) is cached, lambda: "%s: reported as %s" % (what, "cached" if c else "downloaded"))


def path_of(key):
    return "/a/%s/%s/%s.zip" % key


# ---------------------------------------------------------------- kinds
def pick(rng, few=None):
    alg = sorted(TYPES)[rng.randint(len(TYPES))]
    env = ["Breakout", "Hopper-v2", "Pong", "Breakout2"][rng.randint(4)]
    return [alg, env, TYPES[alg][rng.randint(len(TYPES[alg]))]]


def gen_history(rng, tier):
    pool = [pick(rng) for _ in range(2)]
    if rng.rand() < 0.5 and pool[0][0] != "PPO":
        pool.append([pool[0][0], pool[0][1], "final" if pool[0][2] == "best" else "best"])
    calls = []
    for _ in range(rng.randint(3, 8)):
        k = pool[rng.randint(len(pool))]
        how = ["model", "store", "atari", "bad", "model"][rng.randint(5)]
        calls.append([k, how])
    script = [str(rng.choice(["ok", "ok", "404", "500", "truncate", "reset", "slow", "empty"])) for _ in range(6)]
    return dict(seed=int(rng.randint(2**31)), calls=calls, script=script)


def check_history(p, obs):
    root = obs.tmpdir()
    pid, port = server(root, p["seed"], p["script"])
    try:
        have = set()
        for key, how in p["calls"]:
            key = tuple(key)
            alg, env, typ = key
            before = requests(root)
            what = "%s after %s" % (list(key), [x[1] for x in before])
            if how == "bad":
                for args in (("Nonsense", env, "best"), (alg, env, "worst"), ("PPO", env, "best"), (alg.lower(), env, typ)):
                    out, _ = settle(obs, call(root, port, *args, "model"), what)
                    obs.require(out[0] == "exc", lambda: "the model %s was delivered: %s" % (args, out))
                obs.require(requests(root) == before, "an unsupported model was requested")
                continue
            e = env + "NoFrameskip-v4" if how == "atari" else env
            h = "store" if how == "store" else "default" if typ == "best" and p["seed"] % 2 else "model"
            out, _ = settle(obs, call(root, port, alg, e, typ, h), what)
            new = requests(root)[len(before):]
            if key in have:
                obs.require(not new, lambda: "%s: a stored model was requested again: %s" % (what, new))
                complete(obs, p, root, out, key, what, True)
                obs.n("cached")
            elif any(f in ("ok", "slow") for _, f in new):
                obs.require([x[0] for x in new][-1:] == [path_of(key)] and sum(f in ("ok", "slow") for _, f in new) == 1, lambda: "%s: requested %s" % (what, new))
                complete(obs, p, root, out, key, what, False)
                have.add(key)
                obs.n("downloaded")
            else:
                obs.require(bool(new), lambda: "%s: the model was not requested" % what)
                obs.require(out[0] == "exc", lambda: "%s: a failed download (%s) gave %s" % (what, new, out))
                obs.n("failed")
            # nothing stored earlier changed
            for k in have:
                t = tree(os.path.join(root, "models", *k))
                obs.require(digest(t) == digest(files_of(p["seed"], *k)), lambda: "%s: the stored model %s changed" % (what, k))
        obs.sig("history", p["calls"], p["script"])
    finally:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)


def gen_crash(rng, tier):
    return dict(seed=int(rng.randint(2**31)), key=pick(rng), mode=["crash", "error", "timer"][rng.randint(3)], prior=bool(rng.randint(2)), twice=bool(rng.randint(2)))


def check_crash(p, obs):
    root0 = obs.tmpdir()
    key = tuple(p["key"])
    alg, env, typ = key
    k = 0
    while True:
        k += 1
        root = os.path.join(root0, str(k))
        os.mkdir(root)
        pid, port = server(root, p["seed"], ["slow"] * 9 if p["mode"] == "timer" else [])
        try:
            prior = ("SAC", env, "final") if alg != "SAC" else ("TD3", env, "final")
            if p["prior"]:
                out, _ = settle(obs, call(root, port, *prior, "store"), "earlier download")
                complete(obs, p, root, out, prior, "earlier download", False)
            kw = {"crash": dict(crash=k), "error": dict(error=k), "timer": dict(kill_after=0.015 * k)}[p["mode"]]
            out, st = settle(obs, call(root, port, alg, env, typ, "store", **kw), "%s at operation %d" % (p["mode"], k))
            killed = os.WIFSIGNALED(st)
            if out is not None and out[0] == "ok":
                complete(obs, p, root, out, key, "%s at operation %d" % (p["mode"], k), False)
            done = out is not None and out[0] == "ok" and not killed
            what = "after a %s at file operation %d" % (p["mode"], k) if p["mode"] != "timer" else "after a kill"
            if not done and p["twice"]:
                settle(obs, call(root, port, alg, env, typ, "store", **({} if p["mode"] == "timer" else kw)), what)
            out2, _ = settle(obs, call(root, port, alg, env, typ, "store"), what)
            complete(obs, p, root, out2, key, what)
            n = len(requests(root))
            out3, _ = settle(obs, call(root, port, alg, env, typ, "store"), what)
            complete(obs, p, root, out3, key, what + ", second call", True)
            obs.require(len(requests(root)) == n, lambda: "%s: a stored model was requested again" % what)
            if p["prior"]:
                t = tree(os.path.join(root, "models", *prior))
                obs.require(digest(t) == digest(files_of(p["seed"], *prior)), lambda: "%s: another stored model changed" % what)
            obs.n("crash_points")
            obs.sig("crash", p["mode"], k, p["prior"], done)
        finally:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        if (done and (p["mode"] != "error" or k > 60 or out[2] < k)) or k > 80 or (p["mode"] == "timer" and k >= 14):
            break
    obs.n("enumerations")


def gen_conc(rng, tier):
    ks = [pick(rng)]
    if rng.randint(2):
        ks.append(pick(rng))
    if rng.randint(2) and ks[0][0] != "PPO":
        ks.append([ks[0][0], ks[0][1], "final" if ks[0][2] == "best" else "best"])
    return dict(seed=int(rng.randint(2**31)), calls=[ks[rng.randint(len(ks))] for _ in range(rng.randint(2, 6))], script=["slow"] * 9 if rng.randint(2) else [], prog=int(rng.randint(2**31)))


def check_conc(p, obs):
    root = obs.tmpdir()
    pid, port = server(root, p["seed"], p["script"])
    try:
        prs = [(tuple(k), call(root, port, *k, "store", delays=p["prog"] + i)) for i, k in enumerate(p["calls"])]
        outs = [(k, settle(obs, pr, "concurrent call")[0]) for k, pr in prs]
        for k, o in outs:
            complete(obs, p, root, o, k, "%s of concurrent calls %s" % (list(k), p["calls"]))
        got = [x[0] for x in requests(root)]
        for k in set(k for k, _ in outs):
            n = got.count(path_of(k))
            obs.require(n == 1, lambda: "%s was downloaded %d times by concurrent calls" % (list(k), n))
            fresh = sum(not o[1][1] for kk, o in outs if kk == k)
            obs.require(fresh == 1, lambda: "%d concurrent calls report to have downloaded %s" % (fresh, list(k)))
        obs.require(len(got) == len(set(got)), lambda: "requests %s" % got)
        obs.n("concurrent_calls", len(outs))
        obs.sig("conc", [o[1][1] for _, o in outs], len(set(k for k, _ in outs)))
    finally:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)


KINDS = [
    Kind("history", gen_history, check_history, 60, 600),
    Kind("crash", gen_crash, check_crash, 24, 160, timeout=600),
    Kind("concurrent", gen_conc, check_conc, 60, 600),
]
