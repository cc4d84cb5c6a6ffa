"""C06: persistent replay data survive restarts, crashes and I/O errors."""
import ctypes
import os
import pickle
import struct

import numpy as np

from vlib.core import HarnessError, Kind, Violation
from vlib import rb

LEVEL = "fault_enumeration"
RULE = (
    "A writer process appends numbered items to a persistent queue, replay "
    "buffer or episodic buffer (several generations, several chunk sizes). For "
    "each workload every file-system mutation (create, write, mkdir, rename) "
    "it performs is enumerated; the writer is killed before it, after it, and "
    "half-way through each write, or the mutation fails with ENOSPC; then the "
    "directory is reopened, compared with the acknowledged appends, written "
    "again and reopened again. distinct_nontrivial counts distinct (workload "
    "class, fault mode, fault position, outcome) actually reached."
)
ASSUMPTIONS = [
    "process crashes (kill) and failing system calls; not power loss (the code "
    "never calls fsync) and not concurrent writers on one directory",
    "chunks are rotated at small sizes by overriding the queue's chunk size",
]


def _lib():
    lib = ctypes.CDLL(None)
    try:
        lib.vf_disarm.restype = ctypes.c_long
    except AttributeError:
        raise HarnessError("fault shim not preloaded")
    return lib


def _item(i, size):
    return {"id": i, "blob": bytes((i * 7 + j) % 256 for j in range(size))}


def _set_chunk(cs):
    from pfrl.collections import persistent_collections as pc

    if cs is not None:
        pc.PersistentRandomAccessQueue.chunk_size = property(
            lambda self: cs, lambda self, v: None
        )


class Target:
    """Uniform view of the three persistent containers."""

    def __init__(self, kind, path, maxlen, ancestor=None):
        from pfrl import replay_buffers as R
        from pfrl.collections.persistent_collections import PersistentRandomAccessQueue

        self.kind = kind
        kw = {} if ancestor is None else {"ancestor": ancestor}
        if kind == "queue":
            self.o = PersistentRandomAccessQueue(path, maxlen, **kw)
        elif kind == "replay":
            self.o = R.PersistentReplayBuffer(path, maxlen, **kw)
        else:
            self.o = R.PersistentEpisodicReplayBuffer(path, maxlen, **kw)

    def append(self, i, size):
        if self.kind == "queue":
            self.o.append(_item(i, size))
        elif self.kind == "replay":
            self.o.append(state=_item(i, size), action=i, reward=float(i), next_state=i + 1)
        else:
            L = 1 + i % 3
            for t in range(L):
                self.o.append(state=_item(i * 10 + t, size), action=t, reward=float(i),
                              next_state=t + 1, is_state_terminal=False)
            self.o.stop_current_episode()

    def ids(self):
        """Ids of the held items, oldest first where order is visible."""
        if self.kind == "queue":
            out = list(self.o)
            for x in out:
                if x["blob"] != _item(x["id"], len(x["blob"]))["blob"]:
                    raise Violation("item %d came back damaged" % x["id"])
            return [x["id"] for x in out]
        if self.kind == "replay":
            n = len(self.o)
            s = self.o.sample(n) if n else []
            out = []
            for e in s:
                if len(e) != 1:
                    raise Violation("experience of length %d came back" % len(e))
                tr = e[0]
                x = tr["state"]
                if (
                    x["blob"] != _item(x["id"], len(x["blob"]))["blob"]
                    or tr["action"] != x["id"]
                    or tr["reward"] != float(x["id"])
                    or tr["next_state"] != x["id"] + 1
                ):
                    raise Violation("transition %d came back damaged" % x["id"])
                out.append(x["id"])
            return sorted(out)
        n = self.o.n_episodes
        eps = self.o.sample_episodes(n) if n else []
        out, flat = [], []
        for ep in eps:
            i = ep[0]["state"]["id"] // 10
            want = [i * 10 + t for t in range(1 + i % 3)]
            got = [tr["state"]["id"] for tr in ep]
            if got != want:
                raise Violation("episode {} came back as {}".format(i, got))
            out.append(i)
            flat += got
        m = len(self.o)
        trs = sorted(e[0]["state"]["id"] for e in (self.o.sample(m) if m else []))
        if trs != sorted(flat):
            raise Violation(
                "after reopening, episodes hold transitions {} but the transition "
                "view holds {}".format(sorted(flat)[-8:], trs[-8:]))
        return sorted(out)

    def close(self):
        if self.kind == "queue":
            self.o.close()


def _window(kind, ids, maxlen):
    """What a container of that capacity shows of an append history."""
    if maxlen is None:
        return list(ids)
    if kind != "episodic":
        return list(ids)[-maxlen:]
    out, tot = [], 0
    for i in reversed(ids):
        L = 1 + i % 3
        if tot + L > maxlen:
            break
        tot += L
        out.append(i)
    return out[::-1]


def _writer(gen, arm, wfd, dirname):
    """Runs in a forked child. Acks 'o' (opened) then item ids / failures."""
    lib = _lib()
    _set_chunk(gen["chunk"])
    if arm is not None:
        lib.vf_arm(ctypes.c_long(arm[0]), ctypes.c_int(arm[1]), ctypes.c_long(arm[2]),
                   dirname.encode())

    def ack(tag, v):
        os.write(wfd, struct.pack("=cq", tag, v))

    try:
        t = Target(gen["kind"], dirname, gen["maxlen"])
    except OSError:
        ack(b"F", -1)
        os._exit(0)
    ack(b"o", -1)
    for i in range(gen["start"], gen["start"] + gen["n"]):
        ack(b"s", i)
        try:
            t.append(i, gen["sizes"][i % len(gen["sizes"])])
        except OSError:
            ack(b"f", i)
            if gen["kind"] == "episodic":
                break  # the episode is still open: the caller owns the retry
            continue
        ack(b"a", i)
    try:
        if gen["close"]:
            t.close()
    except OSError:
        pass
    ack(b"e", lib.vf_disarm())
    os._exit(0)


def _fork(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            fn(w)
        except Violation as e:
            os.write(w, b"V" + str(e).encode()[:3000])
        except BaseException as e:  # noqa
            import traceback

            tb = traceback.format_exc()
            os.write(w, b"X" + ("%s: %s\n%s" % (type(e).__name__, e, tb)).encode()[-3500:])
        finally:
            os._exit(3)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return buf, st


def run_writer(gen, arm, dirname):
    buf, st = _fork(lambda w: _writer(gen, arm, w, dirname))
    ev = []
    sz = struct.calcsize("=cq")
    i = 0
    while i + sz <= len(buf) and buf[i : i + 1] in b"osafeF":
        ev.append(struct.unpack("=cq", buf[i : i + sz]))
        i += sz
    rest = buf[i:]
    if rest:
        raise Violation("writer failed: " + rest[1:].decode(errors="replace")[:1500])
    return ev, st


def read_back(kind, dirname, maxlen, chunk, ancestor=None):
    def f(w):
        _set_chunk(chunk)
        t = Target(kind, dirname, maxlen, ancestor)
        os.write(w, b"R" + pickle.dumps(t.ids()))
        os._exit(0)

    buf, st = _fork(f)
    if buf[:1] == b"R":
        return pickle.loads(buf[1:])
    if buf[:1] == b"V":
        raise Violation(buf[1:].decode())
    raise Violation("cannot be reopened: " + buf[1:].decode(errors="replace")[:1500])


MODES = {0: "kill-before", 1: "kill-after", 2: "torn-write", 3: "enospc"}


def verify(kind, dirname, chunk, history, acked, maybe, obs, what, caps):
    """history: ids certainly there before; acked: ids acknowledged now;
    maybe: ids that may or may not be there (in flight / failed)."""
    got = read_back(kind, dirname, None, chunk)
    obs.n("reopenings")
    must = list(history) + list(acked)
    extra = set(maybe)
    obs.require(
        len(set(got)) == len(got), lambda: "{}: duplicated items {}".format(what, got[-10:])
    )
    missing = [i for i in must if i not in set(got)]
    obs.require(
        not missing,
        lambda: "{}: acknowledged items lost: {} (got {})".format(what, missing[:10], got[-10:]),
    )
    unexpected = [i for i in got if i not in set(must) and i not in extra]
    obs.require(not unexpected, lambda: "{}: unexpected items {}".format(what, unexpected[:10]))
    if kind == "queue":
        obs.require(got == sorted(got), lambda: "{}: order lost: {}".format(what, got[-12:]))
    full = sorted(got)
    for c in caps:
        g = read_back(kind, dirname, c, chunk)
        w = _window(kind, full, c)
        obs.require(
            g == w,
            lambda: "{}: reopened with capacity {}: {} expected {}".format(what, c, g, w),
        )
    return full


# ----------------------------------------------------- exhaustive crash points
def gen_crash(rng, tier):
    return dict(
        kind=["queue", "replay", "episodic"][rng.randint(3)],
        chunk=[None, 40, 200, 700][rng.randint(4)],
        maxlen=[None, 3, 5, 50][rng.randint(4)],
        sizes=[int(x) for x in rng.choice([0, 1, 30, 300, 9000], 3)],
        n=int(rng.randint(2, 8)),
        pre=int(rng.choice([0, 0, 3])),
        close=bool(rng.rand() < 0.7),
        mode=int(rng.randint(4)),
        span=int(rng.choice([1, 2, 3])),
        cap=int(rng.randint(1, 6)),
    )


def check_crash(p, obs):
    kind, chunk = p["kind"], p["chunk"]
    base = obs.tmpdir()

    def mk(name):
        return os.path.join(base, name, "buf")

    def g(start, n):
        return dict(kind=kind, chunk=chunk, maxlen=p["maxlen"], sizes=p["sizes"],
                    start=start, n=n, close=p["close"])

    # dry run: how many mutations are there to interrupt
    d = mk("dry")
    pre = p["pre"]
    if pre:
        run_writer(g(0, pre), None, d)
    ev, st = run_writer(g(pre, p["n"]), (-1, 0, 1), d)
    if not ev or ev[-1][0] != b"e":
        raise Violation("undisturbed writer did not finish: %r" % (ev[-3:],))
    total = ev[-1][1]
    if total < 3:
        raise HarnessError("no file-system mutations observed")
    obs.n("mutations_enumerated", total)
    verify(kind, d, chunk, range(pre), [e[1] for e in ev if e[0] == b"a"], [], obs,
           "undisturbed", [p["cap"]])
    import shutil

    shutil.rmtree(os.path.dirname(d))
    for k in range(total):
        d = mk("k%d" % k)
        if pre:
            run_writer(g(0, pre), None, d)
        ev, st = run_writer(g(pre, p["n"]), (k, p["mode"], p["span"]), d)
        what = "{} at mutation {}/{} of {}".format(MODES[p["mode"]], k, total, kind)
        acked = [i for tag, i in ev if tag == b"a"]
        started = [i for tag, i in ev if tag == b"s"]
        if p["mode"] != 3:
            obs.require(os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77,
                        lambda: what + ": fault point not reached")
        maybe = [i for i in started if i not in acked]
        obs.n("faults_injected")
        full = verify(kind, d, chunk, range(pre), acked, maybe, obs, what,
                      [p["cap"]] if k % 3 == 0 else [])
        # life goes on: append more in a new process, reopen
        nxt = pre + p["n"] + 1
        ev2, st2 = run_writer(g(nxt, 2), None, d)
        obs.require(
            [e[1] for e in ev2 if e[0] == b"a"] == [nxt, nxt + 1],
            lambda: what + ": cannot append after the fault: %r" % (ev2,),
        )
        verify(kind, d, chunk, full, [nxt, nxt + 1], [], obs, what + ", then appended", [])
        obs.sig(kind, chunk, p["mode"], k, len(acked), len(full) - pre - len(acked))
        shutil.rmtree(os.path.dirname(d))
    obs.sample = dict(mutations=total, mode=MODES[p["mode"]])


# ----------------------------------------------------------- restart histories
def gen_restart(rng, tier):
    return dict(
        kind=["queue", "replay", "episodic"][rng.randint(3)],
        chunk=[None, 30, 150, 1000][rng.randint(4)],
        gens=[[int(rng.randint(0, 12)), [None, 1, 3, 8, 30][rng.randint(5)],
               bool(rng.rand() < 0.7)] for _ in range(int(rng.randint(2, 8)))],
        sizes=[int(x) for x in rng.choice([0, 1, 30, 300], 3)],
    )


def check_restart(p, obs):
    d = os.path.join(obs.tmpdir(), "b")
    hist = []
    for gi, (n, maxlen, close) in enumerate(p["gens"]):
        def f(w):
            _set_chunk(p["chunk"])
            t = Target(p["kind"], d, maxlen)
            seen = [t.ids()]
            for i in range(len(hist), len(hist) + n):
                t.append(i, p["sizes"][i % 3])
            seen.append(t.ids())
            if close:
                t.close()
            os.write(w, b"R" + pickle.dumps(seen))
            os._exit(0)

        buf, st = _fork(f)
        if buf[:1] != b"R":
            raise Violation("generation %d: %s" % (gi, buf[1:].decode(errors="replace")[:1500]))
        first, last = pickle.loads(buf[1:])
        w0 = _window(p["kind"], hist, maxlen)
        obs.require(first == w0, lambda: "generation {}: reopened as {} expected {}".format(gi, first, w0))
        hist = hist + list(range(len(hist), len(hist) + n))
        w1 = _window(p["kind"], hist, maxlen)
        obs.require(last == w1, lambda: "generation {}: holds {} expected {}".format(gi, last, w1))
        obs.n("restarts")
        obs.sig(p["kind"], p["chunk"], gi, n > 0, maxlen, close)
    obs.sample = dict(total=len(hist), generations=len(p["gens"]))


def gen_lineage(rng, tier):
    return dict(
        kind=["queue", "replay", "episodic"][rng.randint(3)],
        chunk=[None, 60, 500][rng.randint(3)],
        levels=[[int(rng.randint(0, 14)), [None, 2, 6, 17, 40][rng.randint(5)],
                 int(rng.randint(1, 3))] for _ in range(int(rng.randint(2, 5)))],
        sizes=[int(x) for x in rng.choice([0, 1, 30], 3)],
    )


def check_lineage(p, obs):
    root = obs.tmpdir()
    hist, anc = [], None
    for li, (n, maxlen, parts) in enumerate(p["levels"]):
        d = os.path.join(root, "L%d" % li)
        for part in range(parts):
            def f(w):
                _set_chunk(p["chunk"])
                t = Target(p["kind"], d, maxlen, anc)
                seen = [t.ids()]
                for i in range(len(hist), len(hist) + n):
                    t.append(i, p["sizes"][i % 3])
                seen.append(t.ids())
                t.close()
                os.write(w, b"R" + pickle.dumps(seen))
                os._exit(0)

            buf, st = _fork(f)
            if buf[:1] != b"R":
                raise Violation("level %d: %s" % (li, buf[1:].decode(errors="replace")[:1500]))
            first, last = pickle.loads(buf[1:])
            w0 = _window(p["kind"], hist, maxlen)
            obs.require(
                first == w0,
                lambda: "level {} (capacity {}) inherits {} expected {}".format(li, maxlen, first, w0))
            hist = hist + list(range(len(hist), len(hist) + n))
            w1 = _window(p["kind"], hist, maxlen)
            obs.require(last == w1, lambda: "level {}: holds {} expected {}".format(li, last, w1))
            obs.n("generations")
        obs.sig(p["kind"], p["chunk"], li, maxlen, n > 0)
        anc = d
    obs.sample = dict(levels=len(p["levels"]), total=len(hist))


KINDS = [
    Kind("crash", gen_crash, check_crash, 64, 1200),
    Kind("restart", gen_restart, check_restart, 60, 800),
    Kind("lineage", gen_lineage, check_lineage, 60, 800),
]
