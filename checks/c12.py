"""C12: on-policy updates use correct returns, advantages and gradients."""
import numpy as np
import torch

from vlib.core import Kind
from vlib import agents as V
from vlib import onpolicy as O
from vlib.onpolicy import T, Tie

LEVEL = "exploration"
RULE = (
    "Each case trains one on-policy agent (A2C, A3C, PPO, TRPO, REINFORCE; discrete "
    "or Gaussian; feed-forward or recurrent; 1-4 environments; random terminals and "
    "interruptions; observation normalisation, own phi/batch_states) on scripted "
    "experience; hooks record inputs, parameters and gradients of every optimizer "
    "step, which are compared with a float64 reference built only from the recorded "
    "rollout. distinct_nontrivial counts distinct (algorithm, options, terminal / "
    "interruption mix, position of the step) among verified steps."
)
ASSUMPTIONS = ["relative tolerance 2e-3 on gradients (float32 code against float64 reference)",
               "A2C treats interruptions as terminals and REINFORCE discards interrupted episodes (documented)"]


def common(rng, tier):
    return dict(
        gamma=float(rng.choice([0.0, 0.5, 0.9, 0.99, 1.0])),
        discrete=bool(rng.rand() < 0.6), envs=int(rng.choice([1, 2, 4, 7])),
        p_done=float(rng.choice([0.03, 0.15, 0.4])), p_reset=float(rng.choice([0.0, 0.1, 0.3])),
        scale=float(rng.choice([0.3, 1.0, 4.0])),
        max_grad=[None, None, 0.1, 5.0][rng.randint(4)],
        phi=bool(rng.rand() < 0.3), own_batch=bool(rng.rand() < 0.3),
        ent=float(rng.choice([0.0, 0.01, 0.5])), prog=int(rng.randint(2**31)),
        updates=4 if tier == "quick" else 8)


def gen_batch(rng, tier):
    p = common(rng, tier)
    p.update(
        name=str(rng.choice(["PPO", "TRPO"])), recurrent=bool(rng.rand() < 0.4),
        interval=int(rng.choice([5, 16, 23])), batch=int(rng.choice([2, 5, 8])),
        epochs=int(rng.choice([1, 2, 3])), lambd=float(rng.choice([0.0, 0.6, 0.95, 1.0])),
        standardize=bool(rng.rand() < 0.5), normalize=bool(rng.rand() < 0.3),
        norm_clip=[None, 1.3][rng.randint(2)], max_seq=[None, 1, 3][rng.randint(3)],
        clip_eps=float(rng.choice([0.05, 0.2])), clip_vf=[None, 0.05, 0.3][rng.randint(3)],
        vcoef=float(rng.choice([0.3, 1.0])), lr=float(rng.choice([0.01, 0.1])),
        max_kl=float(rng.choice([0.001, 0.01, 0.1])), backtrack=int(rng.choice([0, 3, 10])),
        cg_iter=int(rng.choice([10, 60])), damping=float(rng.choice([1e-2, 0.1])))
    return p


def check_batch(p, obs, watch=None):
    """watch(agent, acted, update): told of each step; update is None or a dict."""
    run = O.BatchRun(p, obs)
    steps = 0
    while run.n_updates < p["updates"] and steps < p.get("max_steps", 400):
        steps += 1
        if not run.step():
            obs.require(not run.events and not run.pi_grad_calls, "update before the configured amount of data")
            if watch is not None:
                watch(run.ag, run.acted, None)
            continue
        if max(float(v.abs().max()) for m in run.cur.values() for v in m.values()) > 30:
            break
        D = run.dataset()
        if p["standardize"] and run.std < 1e-3:
            obs.n("degenerate_advantages_skipped")
            if watch is not None:
                return
            run.end_update()
            continue
        find = O.Finder([t["xn"].numpy() for t in D])
        if find.ambiguous:
            obs.n("ambiguous_inputs_skipped")
            if watch is not None:
                return
            run.end_update()
            continue
        fact = dict(losses=[], v=[t["v"] for t in D], vt=[t["vt"] for t in D])
        for k, ev in enumerate(run.events):
            mb = []
            for rows in ev["seqs"]:
                idx = [find(r) for r in rows]
                obs.require(all(i is not None for i in idx), "an update used data that were not collected since the last update")
                mb.append([D[i] for i in idx])
                for a, b in zip(mb[-1], mb[-1][1:]):
                    obs.require(a["env"] == b["env"] and a["ep"] == b["ep"] and b["pos"] == a["pos"] + 1,
                                "a recurrent update sequence is not a run of one episode")
            try:
                fact["losses"].append(verify_step(p, obs, run, ev, mb))
            except Tie:
                obs.n("ties_skipped")
                if watch is not None:
                    return
                continue
            obs.n("steps_verified")
            obs.sig(p["name"], p["recurrent"], p["discrete"], p["standardize"], p["normalize"], p["clip_vf"],
                    p["max_grad"], min(k, 3), any(t["done"] for q in mb for t in q))
        if p["name"] == "TRPO":
            fact["trpo"] = verify_trpo(p, obs, run, D)
            if watch is not None and fact["trpo"] is None:
                return
        if watch is not None:
            watch(run.ag, run.acted, fact)
        run.end_update()
    obs.n("updates_verified", run.n_updates)
    obs.sample = dict(updates=run.n_updates, steps=steps)


def verify_step(p, obs, run, ev, mb):
    run.load(ev["params"])
    seqs = [x for x in mb]
    n = sum(len(x) for x in seqs)
    tot = vtot = ptot = 0.0
    for seq in seqs:
        vs = run.forward(run.rvf, 1, seq)
        outs = run.forward(run.rpi, 0, seq) if p["name"] == "PPO" else [None] * len(seq)
        for t, v, out in zip(seq, vs, outs):
            v = v[0]
            if p["name"] == "TRPO":
                tot = tot + (v - t["vt"]) ** 2
                continue
            lp, ent = run.rpi.logp_ent(out, t["a"])
            ratio = torch.exp(lp - t["lp"])
            rd = float(ratio.detach())
            for b in (1 - p["clip_eps"], 1 + p["clip_eps"]):
                if abs(rd - b) < 2e-5:
                    raise Tie
            adv = t["sadv"]
            lo, hi = 1 - p["clip_eps"], 1 + p["clip_eps"]
            clipped = ratio if lo <= rd <= hi else T(min(max(rd, lo), hi))
            pol = -torch.minimum(ratio * adv, clipped * adv)
            vl = (v - t["vt"]) ** 2
            if p["clip_vf"] is not None:
                e = p["clip_vf"]
                vd = float(v.detach()) - t["v"]
                if abs(abs(vd) - e) < 1e-5:
                    raise Tie
                if abs(vd) > e:
                    vc = t["v"] + (e if vd > 0 else -e)
                    other = (vc - t["vt"]) ** 2
                    if abs(other - float(vl.detach())) < 1e-5:
                        raise Tie
                    if other > float(vl.detach()):
                        vl = vl * 0.0 + other
            tot = tot + pol + p["vcoef"] * vl - p["ent"] * ent
            vtot, ptot = vtot + float(vl.detach()), ptot + float(pol.detach())
    nets = [("vf.", run.rvf)] + ([("pi.", run.rpi)] if p["name"] == "PPO" else [])
    want, scale = O.grads_of(tot / n, nets, p["max_grad"])
    O.close(obs, want, ev["grads"], scale, p["name"])
    return vtot / n, ptot / n


def verify_trpo(p, obs, run, D):
    """The policy step is a fraction of the KL-constrained natural gradient step."""
    rpi = run.rpi
    if not run.pi_grad_calls:
        obs.require(False, "TRPO did not evaluate its policy in an update")
    find = O.Finder([t["xn"].numpy() for t in D])
    seqs = []
    for rows in run.pi_grad_calls[0]:
        idx = [find(r) for r in rows]
        obs.require(all(i is not None for i in idx), "the policy update used data not collected since the last update")
        seqs.append([D[i] for i in idx])
    used = sorted(id(t) for q in seqs for t in q)
    obs.require(used == sorted(id(t) for t in D), "the policy update did not use each collected transition once")
    rpi.load(run.before["pi"])
    ps = rpi.params()
    old = [[o.detach() for o in run.forward(rpi, 0, q)] for q in seqs]
    ovar = torch.exp(2 * rpi.var[0]).detach() if rpi.var else None
    n = len(D)

    def gain_kl():
        g, kl = 0.0, 0.0
        for q, oo in zip(seqs, old):
            for t, out, o in zip(q, run.forward(rpi, 0, q), oo):
                lp, ent = rpi.logp_ent(out, t["a"])
                g = g + torch.exp(lp - t["lp"]) * t["sadv"] + p["ent"] * ent
                kl = kl + rpi.kl(o, out, ovar)
        return g / n, kl / n

    new = [run.cur["pi"][k].double() for k in rpi.names()]
    moved = torch.cat([(a - b.detach()).flatten() for a, b in zip(new, ps)])
    gain, kl = gain_kl()
    g0 = float(gain.detach())
    g = torch.cat([x.flatten() for x in torch.autograd.grad(gain, ps, retain_graph=True)])
    kg = torch.cat([x.flatten() for x in torch.autograd.grad(kl, ps, create_graph=True)])
    if float(g.norm()) < 1e-4:
        return

    def prod(v):
        h = torch.autograd.grad((kg * v).sum(), ps, retain_graph=True)
        return torch.cat([x.flatten() for x in h]) + p["damping"] * v

    from math import sqrt
    x = torch.zeros_like(g)
    r, d = g.clone(), g.clone()
    for _ in range(p["cg_iter"]):
        if float(r.norm()) < 1e-10:
            break
        Ad = prod(d)
        a = float(r @ r) / float(d @ Ad)
        x = x + a * d
        r2 = r - a * Ad
        d = r2 + (float(r2 @ r2) / float(r @ r)) * d
        r = r2
    full = x * sqrt(2 * p["max_kl"] / (float(x @ prod(x)) + 1e-8))
    mAm = float(moved @ prod(moved))
    def after(step):
        """(gain, KL) at policy + step."""
        with torch.no_grad():
            base = [q.detach().clone() for q in ps]
            off = 0
            for q, b in zip(ps, base):
                q.copy_(b + step[off:off + b.numel()].reshape(b.shape))
                off += b.numel()
            gk, kk = gain_kl()
            for q, b in zip(ps, base):
                q.copy_(b)
        return float(gk) - g0, float(kk)

    def kl_after(step):
        return after(step)[1]

    def judge(step, margin):
        """(clearly acceptable, clearly unacceptable) for policy + step."""
        imp, kk = after(step)
        m = margin * abs(float(g @ step)) + 5e-6
        return (imp > m and kk < p["max_kl"] * (1 - margin),
                imp < -m or kk > p["max_kl"] * (1 + margin))

    if float(moved.abs().max()) == 0.0:
        for j in range(p["backtrack"] + 1):
            obs.require(not judge(full * 0.5 ** j, 0.2)[0],
                        lambda: "policy left unchanged although the step {} is acceptable".format(0.5 ** j))
        k = None
        obs.n("trpo_rejected_updates")
    else:
        k = int(round(-np.log2(max(mAm, 1e-300) / (2 * p["max_kl"])) / 2))
        size = mAm / (2 * p["max_kl"] * 0.25 ** k)
        # Among steps of equal d^T A d the natural gradient step maximises g.d, so a
        # slightly inexact direction only loses second order in g.d.
        gr = float(g @ moved) / (float(g @ full) * 0.5 ** k)
        obs.require(0 <= k <= p["backtrack"] and 0.94 < size < 1.06 and 0.9 < gr < 1.06,
                    lambda: "TRPO policy step is not a fraction of the natural-gradient step: halvings {} size {:.3g} gain {:.3g}".format(k, size, gr))
        for j in range(k):
            obs.require(not judge(moved * 2.0 ** (k - j), 0.02)[0],
                        lambda: "line search passed over the acceptable step {}".format(0.5 ** j))
        obs.require(not judge(moved, 0.02)[1], "line search took an unacceptable step")
    obs.n("trpo_steps_verified")
    obs.sig("TRPO", p["recurrent"], p["discrete"], k)
    return (0.0, None) if k is None else (0.5 ** k, kl_after(moved))


# --------------------------------------------------------------------- A2C
def gen_a2c(rng, tier):
    p = common(rng, tier)
    p.update(name="A2C", steps=int(rng.choice([1, 3, 5])), gae=bool(rng.rand() < 0.5),
             tau=float(rng.choice([0.0, 0.7, 0.95])), vcoef=float(rng.choice([0.5, 1.0])),
             pcoef=float(rng.choice([1.0, 0.3])), updates=8 if tier == "quick" else 20)
    return p


def check_a2c(p, obs, watch=None):
    prep = O.Prep(p)
    extra = dict(prep.kw, use_gae=p["gae"], tau=p["tau"], v_loss_coef=p["vcoef"], pi_loss_coef=p["pcoef"],
                 entropy_coeff=p["ent"], max_grad_norm=p["max_grad"])
    extra.update(p.get("decays") or {})
    h = V.make("A2C", seed=p["prog"] % 1000, discrete=p["discrete"], num_envs=p["envs"], opt="sgd", lr=0.05,
               gamma=p["gamma"], update_steps=p["steps"], extra=extra)
    ag, m = h.agent, h.models[0]
    rpi, rvf = (O.Net(x) for x in h.parts)
    names = lambda: [(a + n, x) for a, c in zip(("pi.", "vf."), h.parts) for n, x in c.named_parameters()]
    steps = []

    def pre(o, a, k):
        steps.append((O.grad_snapshot(names()),
                      [{k: v.detach().clone() for k, v in c.state_dict().items()} for c in h.parts]))

    ag.optimizer.register_step_pre_hook(pre)
    s = V.Stream(p["envs"], p["prog"] + 1, p["p_done"], p["p_reset"], scale=p["scale"])
    roll, nup = [], 0
    for step in range(p["steps"] * p["updates"]):
        xs = [prep(o) for o in s.obs]
        acts = [np.array(a) for a in ag.batch_act(s.obs)]
        nobs, rew, done, reset = s.step()
        roll.append([dict(x=xs[i], a=acts[i], r=rew[i], done=done[i] or reset[i], x2=prep(nobs[i]))
                     for i in range(p["envs"])])
        del steps[:]
        ag.batch_observe(nobs, rew, done, reset)
        s.begin(nobs, done, reset)
        due = (step + 1) % p["steps"] == 0
        obs.require(len(steps) == int(due), lambda: "{} updates at step {}".format(len(steps), step))
        if not due:
            if watch is not None:
                watch(ag, None)
            continue
        grads, (sp, sv) = steps[0]
        rpi.load(sp), rvf.load(sv)
        val = lambda x: rvf.step(T(x), None)[0][0]
        tot = atot = etot = vtot = 0.0
        n = p["steps"] * p["envs"]
        for i in range(p["envs"]):
            tr = [row[i] for row in roll]
            vs = [float(val(t["x"]).detach()) for t in tr]
            for k, t in enumerate(tr):
                # explicit sum over the rest of the rollout
                if p["gae"]:
                    A, c = 0.0, 1.0
                    for j in range(k, len(tr)):
                        nv = 0.0 if tr[j]["done"] else (vs[j + 1] if j + 1 < len(tr) else float(val(tr[j]["x2"]).detach()))
                        A += c * (tr[j]["r"] + p["gamma"] * nv - vs[j])
                        if tr[j]["done"]:
                            break
                        c *= p["gamma"] * p["tau"]
                    G = A + vs[k]
                else:
                    G, c = 0.0, 1.0
                    for j in range(k, len(tr)):
                        G += c * tr[j]["r"]
                        c *= p["gamma"]
                        if tr[j]["done"]:
                            c = 0.0
                            break
                    if c:
                        G += c * float(val(tr[-1]["x2"]).detach())
                lp, ent = rpi.logp_ent(rpi.step(T(t["x"]), None)[0], t["a"])
                v = val(t["x"])
                tot = tot + p["vcoef"] * (G - v) ** 2 - p["pcoef"] * (G - float(v.detach())) * lp - p["ent"] * ent
                atot -= (G - float(v.detach())) * float(lp.detach())
                etot, vtot = etot + float(ent.detach()), vtot + float(v.detach())
        want, scale = O.grads_of(tot / n, [("pi.", rpi), ("vf.", rvf)], p["max_grad"])
        O.close(obs, want, grads, scale, "A2C")
        obs.n("steps_verified")
        obs.sig("A2C", p["gae"], p["discrete"], p["envs"], p["steps"], p["max_grad"],
                any(t["done"] for row in roll for t in row), roll[-1][0]["done"])
        if watch is not None:
            watch(ag, dict(actor=atot / n, entropy=etot / n, value=vtot / n))
            watch.rest(ag)
        roll = []


# ----------------------------------------------------------- A3C, REINFORCE
def gen_single(rng, tier):
    p = common(rng, tier)
    p.update(name=str(rng.choice(["A3C", "REINFORCE"])), recurrent=bool(rng.rand() < 0.4), envs=1,
             t_max=int(rng.choice([1, 3, 6])), vcoef=float(rng.choice([0.5, 1.0])),
             pcoef=float(rng.choice([1.0, 0.3])), keep=bool(rng.rand() < 0.4), by_tmax=bool(rng.rand() < 0.4),
             batch=int(rng.choice([1, 2, 3])), separate=bool(rng.rand() < 0.5),
             steps=40 if tier == "quick" else 120)
    p["p_done"] = float(rng.choice([0.1, 0.3, 0.5]))
    return p


def check_single(p, obs, watch=None):
    prep = O.Prep(p)
    a3c = p["name"] == "A3C"
    extra = dict(prep.kw, beta=p["ent"], max_grad_norm=p["max_grad"])
    if a3c:
        extra.update(pi_loss_coef=p["pcoef"], v_loss_coef=p["vcoef"], keep_loss_scale_same=p["keep"],
                     normalize_grad_by_t_max=p["by_tmax"])
    else:
        extra.update(backward_separately=p["separate"])
    extra.update(p.get("decays") or {})
    h = V.make(p["name"], seed=p["prog"] % 1000, discrete=p["discrete"], recurrent=p["recurrent"], t_max=p["t_max"],
               gamma=p["gamma"], batch=p["batch"], opt="sgd", lr=0.02, extra=extra)
    ag, m = h.agent, h.models[0]
    if a3c:
        kids = h.parts
        nets = [O.Net(x) for x in kids]
        pres = ["pi.", "vf."]
    else:
        kids, nets, pres = [m], [O.Net(m)], [""]
    steps = []

    def snap():
        return [{k: v.detach().clone() for k, v in c.state_dict().items()} for c in kids]

    def pre(o, a, k):
        steps.append((O.grad_snapshot((a + n, x) for a, c in zip(pres, kids) for n, x in c.named_parameters()), snap()))

    ag.optimizer.register_step_pre_hook(pre)
    s = V.Stream(1, p["prog"] + 1, p["p_done"], p["p_reset"], scale=p["scale"])
    cur, batch = [], []
    hid = [None] * len(nets)
    start = list(hid)
    sn = snap()
    for step in range(p["steps"]):
        for n, d in zip(nets, sn):
            n.load(d)
        x = prep(s.obs[0])
        if watch is not None:
            with torch.no_grad():
                outs = [n.step(T(x), hh if p["recurrent"] else None)[0] for n, hh in zip(nets, hid)]
                acted = dict(entropy=float(nets[0].entropy(outs[0])))
                if a3c:
                    acted["value"] = float(outs[1][0])
        a = np.array(ag.act(s.obs[0]))
        if watch is not None:
            watch(ag, acted)
        if p["recurrent"]:
            with torch.no_grad():
                hid = [O.det(n.step(T(x), hh)[1]) for n, hh in zip(nets, hid)]
        nobs, rew, done, reset = s.step()
        cur.append(dict(x=x, a=a, r=rew[0]))
        del steps[:]
        ag.observe(nobs[0], rew[0], done[0], reset[0])
        d, e = done[0], done[0] or reset[0]
        x2 = prep(nobs[0])
        s.begin(nobs, done, reset)
        if a3c:
            due = e or len(cur) == p["t_max"]
        else:
            if d:
                batch.append(cur)
            due = d and len(batch) == p["batch"]
        obs.require(len(steps) == int(due), lambda: "{} parameter updates, expected {}".format(len(steps), int(due)))
        if due:
            grads, ps = steps[0]
            for n, q in zip(nets, ps):
                n.load(q)
            if a3c:
                R = 0.0
                if not d:
                    with torch.no_grad():
                        R = float(nets[1].step(T(x2), hid[1])[0])
                n_ = len(cur)
                rets = [sum(p["gamma"] ** (j - k) * cur[j]["r"] for j in range(k, n_)) + p["gamma"] ** (n_ - k) * R
                        for k in range(n_)]
                tot = 0.0
                hp, hv = start
                for t, G in zip(cur, rets):
                    out, hp = nets[0].step(T(t["x"]), hp if p["recurrent"] else None)
                    v, hv = nets[1].step(T(t["x"]), hv if p["recurrent"] else None)
                    lp, ent = nets[0].logp_ent(out, t["a"])
                    tot = tot + p["pcoef"] * (-(G - float(v.detach())) * lp - p["ent"] * ent) \
                        + p["vcoef"] * 0.5 * (v[0] - G) ** 2
                if p["keep"] and n_ < p["t_max"]:
                    tot = tot * p["t_max"] / n_
                if p["by_tmax"]:
                    tot = tot / n_
            else:
                tot = 0.0
                for ep in batch:
                    hp = None
                    for k, t in enumerate(ep):
                        out, hp = nets[0].step(T(t["x"]), hp if p["recurrent"] else None)
                        lp, ent = nets[0].logp_ent(out, t["a"])
                        tot = tot - sum(u["r"] for u in ep[k:]) * lp - p["ent"] * ent
                tot = tot / p["batch"]
                batch = []
            want, scale = O.grads_of(tot, list(zip(pres, nets)), p["max_grad"])
            O.close(obs, want, grads, scale, p["name"])
            obs.n("steps_verified")
            obs.sig(p["name"], p["recurrent"], p["discrete"], p["keep"], p["by_tmax"], p["separate"], p["max_grad"],
                    len(cur), d)
            sn = snap()
            if max(float(v.abs().max()) for q in sn for v in q.values()) > 30:
                break
        if e:
            hid = [None] * len(nets)
            if not a3c or due:
                cur = []
        if a3c and due:
            cur = []
            start = list(hid)
        if a3c and e:
            start = [None] * len(nets)
        if watch is not None and e:
            watch.rest(ag)


KINDS = [
    Kind("batch", gen_batch, check_batch, 220, 2500),
    Kind("a2c", gen_a2c, check_a2c, 120, 1500),
    Kind("single", gen_single, check_single, 250, 3000),
]
