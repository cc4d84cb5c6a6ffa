"""C05: queues behave as bounded FIFO queues."""
import collections
import copy
import pickle

import numpy as np

from vlib.core import Kind, Violation

LEVEL = "exploration"
RULE = (
    "Random operation sequences (append, extend from lists / generators / the "
    "queue itself, popleft, positive and negative indexing, assignment, "
    "iteration, len, sample, pickling, copying) on the in-memory and the "
    "persistent queue are executed in lock-step with collections.deque. "
    "distinct_nontrivial counts distinct (type, maxlen, operation bigram, "
    "size class) observed."
)


def gen(rng, tier):
    return dict(
        kind=str(rng.choice(["mem", "persist"], p=[0.7, 0.3])),
        maxlen=[None, 0, 1, 2, 3, 7, 20][rng.randint(7)],
        init=int(rng.choice([0, 0, 1, 4, 9])),
        ops=int(rng.randint(400, 1500) if rng.rand() < 0.1 else rng.randint(10, 200)),
        pop_bias=float(rng.choice([0.05, 0.3, 0.5])),
        prog=int(rng.randint(2**31)),
    )


def check(p, obs):
    from pfrl.collections.persistent_collections import PersistentRandomAccessQueue
    from pfrl.collections.random_access_queue import RandomAccessQueue

    rng = np.random.RandomState(p["prog"])
    mem = p["kind"] == "mem"
    ml = p["maxlen"]
    if mem:
        init = ["i%d" % i for i in range(p["init"])]
        q = RandomAccessQueue(init, maxlen=ml) if p["init"] else RandomAccessQueue(maxlen=ml)
        m = collections.deque(init, maxlen=ml)
    else:
        ml = ml or None
        q = PersistentRandomAccessQueue(obs.tmpdir(), ml)
        m = collections.deque(maxlen=ml)
    ctr = [0]

    def new():
        ctr[0] += 1
        return ctr[0]

    def both(f, g, what):
        try:
            a = ("ok", f())
        except IndexError:
            a = ("IndexError",)
        try:
            b = ("ok", g())
        except IndexError:
            b = ("IndexError",)
        obs.require(a == b, lambda: "{}: got {!r}, expected {!r}".format(what, a, b))

    def compare(where):
        obs.require(len(q) == len(m), lambda: "{}: len {} != {}".format(where, len(q), len(m)))
        got = list(q)
        obs.require(
            got == list(m), lambda: "{}: contents {} != {}".format(where, got[:12], list(m)[:12])
        )

    obs.require(q.maxlen == ml, "maxlen not reported")
    prev = "start"
    for step in range(p["ops"]):
        r = rng.rand()
        if r < p["pop_bias"]:
            op = "popleft"
            both(q.popleft, m.popleft, "popleft at step %d" % step)
        elif r < p["pop_bias"] + 0.3:
            op = "append"
            x = new()
            q.append(x)
            m.append(x)
        else:
            op = str(rng.choice(["extend", "extendgen", "get", "getneg", "set", "iter",
                                 "sample", "copy", "self"]))
            if op == "extend":
                xs = [new() for _ in range(rng.randint(0, 9))]
                q.extend(xs)
                m.extend(xs)
            elif op == "extendgen":
                xs = [new() for _ in range(rng.randint(0, 9))]
                q.extend(x for x in xs)
                m.extend(xs)
            elif op == "self":
                xs = list(q)[:10]
                q.extend(xs)
                m.extend(xs)
            elif op in ("get", "getneg"):
                i = int(rng.randint(0, len(m) + 2))
                i = -i if op == "getneg" else i
                both(lambda: q[i], lambda: m[i], "index %d of %d" % (i, len(m)))
            elif op == "set":
                if not mem:
                    continue
                i = int(rng.randint(-len(m) - 2, len(m) + 2))
                x = new()
                both(
                    lambda: q.__setitem__(i, x),
                    lambda: m.__setitem__(i, x),
                    "assignment at %d of %d" % (i, len(m)),
                )
            elif op == "iter":
                compare("step %d" % step)
            elif op == "sample":
                if len(m):
                    k = int(rng.randint(0, len(m) + 1))
                    s = q.sample(k)
                    obs.require(len(s) == k and set(s) <= set(m), "sample not from contents")
            elif op == "copy":
                if not mem:
                    continue
                c = pickle.loads(pickle.dumps(q)) if rng.rand() < 0.5 else copy.deepcopy(q)
                obs.require(list(c) == list(m) and c.maxlen == ml, "copy differs")
                c.append(-1)
                obs.require(list(q) == list(m), "copy shares state")
                if rng.rand() < 0.5:
                    q = copy.deepcopy(q)
        obs.n("operations")
        obs.require(len(q) == len(m), lambda: "after {}: len {} != {}".format(op, len(q), len(m)))
        if len(m):
            obs.require(q[0] == m[0] and q[-1] == m[-1], lambda: "ends differ after " + op)
            obs.sig(p["kind"], ml, prev, op, min(len(m), 4))
        prev = op
    compare("at end")
    for i in range(-len(m), len(m)):
        obs.require(q[i] == m[i], lambda: "index %d differs" % i)
    obs.sample = dict(final_len=len(m))
    if not mem:
        q.close()


KINDS = [Kind("ops", gen, check, 900, 12000)]
