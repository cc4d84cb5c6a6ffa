"""C13: trust-region and data-use guarantees of TRPO and PPO."""
import torch

from vlib.core import Kind
from vlib import onpolicy as O
from checks import c12

LEVEL = "exploration"
RULE = (
    "Each case trains PPO or TRPO on scripted experience and, for every update, "
    "records which transitions every minibatch contains (inputs are distinct, so "
    "network inputs identify transitions) and checks exactly-once-per-epoch use; "
    "after each TRPO update the mean KL divergence and the surrogate objective are "
    "recomputed in float64 from the recorded data. distinct_nontrivial counts "
    "distinct (algorithm, options, data size, minibatch structure / KL level)."
)
ASSUMPTIONS = ["KL and objective bounds checked with 0.5% / 1e-5 slack for float32 rounding"]


def gen(rng, tier):
    p = c12.gen_batch(rng, tier)
    p["interval"] = int(rng.choice([4, 9, 16, 30]))
    p["batch"] = int(rng.choice([1, 3, 4, 7, 16, 20]))
    p["max_kl"] = float(rng.choice([1e-4, 0.01, 0.05, 0.3, 2.0]))
    p["backtrack"] = int(rng.choice([0, 1, 3, 10]))
    p["cg_iter"] = int(rng.choice([1, 3, 10]))
    p["scale"] = float(rng.choice([0.3, 1.0, 10.0]))
    p["own_batch"] = p["phi"] = False
    p["normalize"] = False
    p["lr"] = 0.01
    p["updates"] = 5 if tier == "quick" else 12
    return p


def check(p, obs):
    run = O.BatchRun(p, obs)
    steps = 0
    while run.n_updates < p["updates"] and steps < 400:
        steps += 1
        if not run.step():
            obs.require(not run.events and not run.pi_grad_calls,
                        "update before the configured amount of data was collected")
            continue
        if max(float(v.abs().max()) for m in run.cur.values() for v in m.values()) > 50:
            break
        D = run.dataset()
        if p["standardize"] and run.std < 1e-3:
            run.end_update()
            continue
        for i, t in enumerate(D):
            t["i"] = i
        find = O.Finder([t["xn"].numpy() for t in D])
        account(p, obs, run, D, find)
        if p["name"] == "TRPO":
            trust(p, obs, run, D, find)
        run.end_update()
    obs.n("updates_monitored", run.n_updates)
    obs.sample = dict(updates=run.n_updates)


def account(p, obs, run, D, find):
    n, b, ep = len(D), p["batch"], p["epochs"]
    ev = run.events
    want = (n // b) * ep if p["recurrent"] else -(-n * ep // b)
    obs.require(len(ev) == want, lambda: "{} minibatches from {} transitions, {} epochs of size {}; expected {}".format(
        len(ev), n, ep, b, want))
    count = [0] * n
    per_epoch = n // b
    seen = set()
    for k, e in enumerate(ev):
        if p["recurrent"] and k % max(per_epoch, 1) == 0:
            seen = set()
        tot = 0
        for rows in e["seqs"]:
            idx = [find(r) for r in rows]
            obs.require(all(i is not None for i in idx),
                        "a minibatch contains a transition not collected since the previous update")
            tot += len(idx)
            if p["recurrent"]:
                obs.require(p["max_seq"] is None or len(idx) <= p["max_seq"],
                            lambda: "sequence of {} transitions".format(len(idx)))
                for i, j in zip(idx, idx[1:]):
                    a, c = D[i], D[j]
                    obs.require((a["env"], a["ep"], a["pos"] + 1) == (c["env"], c["ep"], c["pos"]),
                                "a sequence mixes episodes or is not contiguous")
            for i in idx:
                obs.require(not p["recurrent"] or i not in seen, "a transition is used twice in one epoch")
                seen.add(i)
                count[i] += 1
        obs.require(tot == b, lambda: "minibatch of {} transitions".format(tot))
        if not p["recurrent"]:
            obs.require(max(count) - min(count) <= 1,
                        "a transition is used again before every other one was used")
        obs.n("minibatches_accounted")
    if not p["recurrent"] and ev:
        obs.require(min(count) >= ep, "a transition was not used in some epoch")
    obs.sig(p["name"], p["recurrent"], n, b, ep, p["max_seq"])


def trust(p, obs, run, D, find):
    rpi = run.rpi
    calls = run.pi_grad_calls
    obs.require(len(calls) >= 1, "the policy was not evaluated in the update")
    seqs = []
    for rows in calls[0]:
        idx = [find(r) for r in rows]
        obs.require(all(i is not None for i in idx),
                    "the policy update uses a transition not collected since the previous update")
        seqs.append([D[i] for i in idx])
    used = sorted(t["i"] for q in seqs for t in q)
    obs.require(used == list(range(len(D))), "the policy update does not use every collected transition once")
    with torch.no_grad():
        rpi.load(run.before["pi"])
        old = [run.forward(rpi, 0, q) for q in seqs]
        ovar = torch.exp(2 * rpi.var[0]).clone() if rpi.var else None

        def gain():
            g = k = 0.0
            for q, oo in zip(seqs, old):
                for t, out, o in zip(q, run.forward(rpi, 0, q), oo):
                    lp, ent = rpi.logp_ent(out, t["a"])
                    g += float(torch.exp(lp - t["lp"])) * t["sadv"] + p["ent"] * float(ent)
                    k += float(rpi.kl(o, out, ovar))
            return g / len(D), k / len(D)

        g0, _ = gain()
        rpi.load(run.cur["pi"])
        g1, kl = gain()
    changed = any(not torch.equal(run.before["pi"][k], run.cur["pi"][k]) for k in run.cur["pi"])
    if not changed:
        obs.n("policy_left_unchanged")
        obs.sig("unchanged", p["discrete"], p["recurrent"], p["max_kl"])
        return
    obs.n("policy_changed")
    obs.require(kl <= p["max_kl"] * 1.005 + 1e-6, lambda: "mean KL {:.6g} beyond the bound {}".format(kl, p["max_kl"]))
    obs.require(g1 >= g0 - 1e-5 * max(1.0, p["scale"]), lambda: "surrogate objective fell from {} to {}".format(g0, g1))
    obs.sig("kl", p["discrete"], p["recurrent"], p["max_kl"], int(10 * kl / p["max_kl"]))


KINDS = [Kind("update", gen, check, 600, 8000)]
