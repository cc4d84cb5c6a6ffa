"""Reference models and helpers for replay buffers."""
import numpy as np

from vlib.core import Violation

FIELDS = ("state", "action", "reward", "next_state", "next_action", "is_state_terminal")


def mk_transition(env, ep, t, terminal, extra=False):
    """A transition whose every field identifies (env, episode, time)."""
    base = env * 10**10 + ep * 10**5 + t
    d = dict(
        state=np.array([base, 0.5], dtype=np.float64),
        action=base + 0.25,
        reward=float(base) * 2 + 1,
        next_state=np.array([base + 1, 0.75], dtype=np.float64),
        next_action=None if t % 3 == 0 else base + 0.5,
        is_state_terminal=bool(terminal),
    )
    if extra:
        d["extra_info"] = ("x", base)
    return d


def canon(tr):
    """Hashable form of a stored transition (importance weight excluded)."""
    out = []
    for k in sorted(tr):
        if k == "weight":
            continue
        v = tr[k]
        if isinstance(v, np.ndarray):
            v = ("arr", v.shape, tuple(v.ravel().tolist()))
        elif isinstance(v, (np.floating, np.integer, np.bool_)):
            v = v.item()
        out.append((k, v))
    return tuple(out)


def canon_exp(exp):
    return tuple(canon(t) for t in exp)


def sample_all(buf):
    """Everything the buffer holds, through its sampling interface."""
    n = len(buf)
    if n == 0:
        return []
    s = buf.sample(n)
    if hasattr(buf, "update_errors"):
        buf.update_errors([0.5] * n)
    return list(s)


class NStepModel:
    """Independent specification of n-step experience storage.

    Transition k of an episode x_0..x_{T-1} yields the experience
    x[k : k+n] (cut at the episode end), which becomes available when
    x_{k+n-1} arrives or when the episode ends, whichever is first.
    """

    def __init__(self, n, capacity):
        self.n, self.capacity = n, capacity
        self.open = {}  # env -> list of transitions in current episode
        self.emitted = {}  # env -> number of experiences already emitted
        self.log = []  # all experiences, in order of availability

    def append(self, env, tr):
        ep = self.open.setdefault(env, [])
        ep.append(tr)
        if tr["is_state_terminal"]:
            self.end(env)
        elif len(ep) >= self.n:
            k = len(ep) - self.n
            self.log.append(ep[k : k + self.n])
            self.emitted[env] = k + 1

    def end(self, env):
        ep = self.open.pop(env, [])
        start = self.emitted.pop(env, 0)
        for k in range(start, len(ep)):
            self.log.append(ep[k : k + self.n])

    def contents(self):
        if self.capacity is None:
            return self.log
        return self.log[-self.capacity :] if self.capacity else []


def same_multiset(got, want, what):
    from collections import Counter

    g, w = Counter(got), Counter(want)
    if g != w:
        missing = list((w - g).elements())[:2]
        extra = list((g - w).elements())[:2]
        raise Violation(
            "{}: {} items held, {} expected; missing {!r}; unexpected {!r}".format(
                what, len(got), len(want), missing, extra
            )
        )
