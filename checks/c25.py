"""C25: action values are evaluated, maximised and selected consistently."""
import numpy as np
import torch

from vlib.core import Kind

LEVEL = "exploration"
RULE = (
    "discrete / distributional / quantile / quadratic / single: action-value objects on adversarial "
    "batches (ties, huge and tiny values, single samples, one action, degenerate distributions) are "
    "compared sample by sample with float64 oracles, before and after indexing, together with their "
    "gradients. qfunc: the q-functions of the library (fully connected, distributional, quadratic, "
    "dueling, state-action) on batches versus single samples, dueling identities, positive-definite "
    "coefficient matrices, actions within range. distinct_nontrivial counts distinct (type, shape, "
    "value regime)."
)

SCALES = [1e-20, 1e-3, 1.0, 1.0, 50.0, 1e4, 1e15]


def values(rng, shape, regime, scale):
    x = rng.randn(*shape)
    if regime == "ties":
        x = np.round(x)
    elif regime == "equal":
        x[:] = x.flat[0]
    elif regime == "close":
        x = 1 + x * 1e-6
    elif regime == "negative":
        x = -np.abs(x) - 1
    return (x * scale).astype(np.float32)


def indices(rng, B):
    out = [slice(0, B), slice(0, 1), slice(B - 1, B), slice(None, None, 2), slice(B // 2, None)]
    out.append(torch.as_tensor(rng.randint(0, B, int(rng.randint(1, 6)))))
    out.append([int(x) for x in rng.randint(0, B, int(rng.randint(1, 6)))])
    m = rng.rand(B) < 0.5
    m[rng.randint(B)] = True
    out.append(torch.as_tensor(m))
    out.append(torch.as_tensor(rng.permutation(B)))
    return [(i, np.arange(B)[i.numpy() if torch.is_tensor(i) else i]) for i in out]


def close(a, b, scale, msg, obs, rel=2e-5):
    a = a.detach().numpy().astype(np.float64) if torch.is_tensor(a) else np.asarray(a, np.float64)
    b = np.asarray(b, np.float64)
    obs.require(a.shape == b.shape, lambda: "%s: shape %s instead of %s" % (msg, a.shape, b.shape))
    ok = np.abs(a - b) <= rel * scale + rel * np.abs(b)
    obs.require(bool(np.all(ok)), lambda: "%s: %s instead of %s" % (msg, a.ravel()[:8], b.ravel()[:8]))


def exact(a, b, msg, obs):
    a = a.detach().numpy() if torch.is_tensor(a) else np.asarray(a)
    obs.require(a.shape == b.shape and np.array_equal(a, b), lambda: "%s: %s instead of %s" % (msg, a.ravel()[:8], b.ravel()[:8]))


def sm(z):
    e = np.exp(z - z.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


def discrete_common(av, Q, rng, obs, S, exact_values):
    """Q: float64 reference (B, A)."""
    B, A = Q.shape
    r = np.arange(B)
    eq = (lambda a, b, m: exact(a, b.astype(np.float32), m, obs)) if exact_values else (lambda a, b, m: close(a, b, S, m, obs))
    eq(av.q_values, Q, "q_values")
    g = av.greedy_actions.detach().numpy()
    obs.require(g.shape == (B,) and g.min() >= 0 and g.max() < A, lambda: "greedy actions %s" % g)
    tol = 0 if exact_values else 2e-5 * S
    obs.require(bool(np.all(Q[r, g] >= Q.max(axis=1) - tol)), "an action has a higher value than the greedy one")
    eq(av.max, Q[r, g], "max")
    obs.require(bool(np.all(av.max.detach().numpy() >= av.q_values.detach().numpy().max(axis=1))), "max is not the largest value")
    obs.require(av.n_actions == A, "n_actions")
    for k in range(3):
        a = rng.randint(0, A, B)
        b = rng.randint(0, A, B)
        if k == 2:
            a = g.copy()
        ta, tb = torch.as_tensor(a).long(), torch.as_tensor(b).long()
        eq(av.evaluate_actions(ta), Q[r, a], "evaluate_actions")
        close(av.compute_advantage(ta), Q[r, a] - Q[r, g], S, "advantage", obs)
        adv = av.compute_advantage(ta).detach().numpy()
        obs.require(bool(np.all(adv <= 0)), "an advantage is positive")
        if k == 2:
            obs.require(bool(np.all(adv == 0)), "the advantage of the greedy action is not zero")
        close(av.compute_double_advantage(ta, tb), Q[r, a] - Q[r, b], S, "double advantage", obs)
    obs.n("samples", B)


def expectation(av, Q, rng, obs, S):
    for beta in (0.0, 0.3 / max(S, 1e-30), 5.0 / max(S, 1e-30)):
        close(av.compute_expectation(float(beta)), (sm(beta * Q) * Q).sum(axis=1), S, "expectation under softmax", obs, rel=1e-4)


def sub_gradient(av, leaf, rng, obs, n_actions):
    """Selecting samples leaves the connection to what they were computed from."""
    B = len(leaf)
    for i, sel in indices(rng, B):
        a = rng.randint(0, n_actions, len(sel))
        gr, = torch.autograd.grad(av[i].evaluate_actions(torch.as_tensor(a)).sum(), leaf, retain_graph=True)
        whole = [torch.autograd.grad(av.evaluate_actions(torch.as_tensor(np.full(B, k)))[int(j)], leaf, retain_graph=True)[0] for j, k in zip(sel, a)]
        close(gr, sum(x.numpy().astype(np.float64) for x in whole), float(max(np.abs(x.numpy()).max() for x in whole)) * len(sel), "gradient through a selection", obs)
        obs.n("selection_gradients")


def gen_d(rng, tier):
    return dict(B=int(rng.choice([1, 1, 2, 3, 8, 17])), A=int(rng.choice([1, 2, 3, 6, 18])), T=int(rng.choice([1, 2, 5, 32, 200])),
                regime=str(rng.choice(["normal", "ties", "equal", "close", "negative"])), scale=float(SCALES[rng.randint(len(SCALES))]),
                prog=int(rng.randint(2**31)))


def check_discrete(p, obs):
    from pfrl import action_value as AV

    rng = np.random.RandomState(p["prog"])
    for rep in range(6):
        q = values(rng, (p["B"], p["A"]), p["regime"], p["scale"])
        S = float(np.abs(q).max()) + 1e-30
        tq = torch.as_tensor(q.copy()).requires_grad_()
        av = AV.DiscreteActionValue(tq)
        Q = q.astype(np.float64)
        discrete_common(av, Q, rng, obs, S, True)
        expectation(av, Q, rng, obs, S)
        for i, sel in indices(rng, p["B"]):
            sub = av[i]
            discrete_common(sub, Q[sel], rng, obs, S, True)
            expectation(sub, Q[sel], rng, obs, S)
        if rep == 0:
            sub_gradient(av, tq, rng, obs, p["A"])
        a = rng.randint(0, p["A"], p["B"])
        for dt in (torch.int32, torch.int64):
            y = AV.DiscreteActionValue(tq).evaluate_actions(torch.as_tensor(a).to(dt))
            w = rng.uniform(0.5, 2, p["B"]).astype(np.float32)
            gr, = torch.autograd.grad((y * torch.as_tensor(w)).sum(), tq)
            want = np.zeros_like(q)
            want[np.arange(p["B"]), a] = w
            exact(gr, want, "gradient of evaluate_actions", obs)
        av = AV.DiscreteActionValue(tq)
        gr, = torch.autograd.grad(av.max.sum(), tq)
        want = np.zeros_like(q)
        want[np.arange(p["B"]), av.greedy_actions.numpy()] = 1
        exact(gr, want, "gradient of max", obs)
        exact(tq.detach(), q, "input after use", obs)
        obs.require(len(av.params) == 1 and av.params[0] is tq, "params")
        obs.sig("discrete", p["B"], p["A"], p["regime"], p["scale"])


def check_dist(p, obs):
    from pfrl import action_value as AV

    rng = np.random.RandomState(p["prog"])
    T = max(p["T"], 2)
    for rep in range(4):
        lo = float(rng.uniform(-20, 5))
        hi = lo + float(rng.uniform(0.1, 30))
        z = np.linspace(lo, hi, T, dtype=np.float32)
        if rng.rand() < 0.3:
            z = np.sort(rng.uniform(lo, hi, T)).astype(np.float32)
        pr = rng.dirichlet(np.full(T, float(rng.choice([0.05, 1, 20]))), (p["B"], p["A"])).astype(np.float32)
        if p["regime"] == "equal":
            pr[:] = pr[:1, :1]
        if p["regime"] == "ties":
            pr = np.eye(T, dtype=np.float32)[rng.randint(0, T, (p["B"], p["A"]))]
        Q = (pr.astype(np.float64) * z.astype(np.float64)).sum(axis=2)
        S = float(np.abs(z).max()) + 1e-9
        tp = torch.as_tensor(pr.copy()).requires_grad_()

        def verify(av, P, Qx):
            B = len(Qx)
            discrete_common(av, Qx, rng, obs, S, False)
            expectation(av, Qx, rng, obs, S)
            g = av.greedy_actions.detach().numpy()
            r = np.arange(B)
            exact(av.max_as_distribution, P[r, g], "distribution of the greedy action", obs)
            a = rng.randint(0, p["A"], B)
            exact(av.evaluate_actions_as_distribution(torch.as_tensor(a)), P[r, a], "distribution of an action", obs)
            d = av.evaluate_actions_as_distribution(torch.as_tensor(a)).detach().numpy().astype(np.float64)
            close(av.evaluate_actions(torch.as_tensor(a)), (d * z).sum(axis=1), S, "value versus expectation", obs)

        av = AV.DistributionalDiscreteActionValue(tp, torch.as_tensor(z))
        verify(av, pr, Q)
        for i, sel in indices(rng, p["B"]):
            verify(av[i], pr[sel], Q[sel])
        if rep == 0:
            sub_gradient(av, tp, rng, obs, p["A"])
        a = rng.randint(0, p["A"], p["B"])
        gr, = torch.autograd.grad(av.evaluate_actions(torch.as_tensor(a)).sum(), tp, retain_graph=True)
        want = np.zeros_like(pr)
        want[np.arange(p["B"]), a] = z
        exact(gr, want, "gradient of evaluate_actions", obs)
        gr, = torch.autograd.grad(av.evaluate_actions_as_distribution(torch.as_tensor(a)).sum(), tp)
        want = np.zeros_like(pr)
        want[np.arange(p["B"]), a] = 1
        exact(gr, want, "gradient of the distribution", obs)
        obs.sig("dist", p["B"], p["A"], T, p["regime"])


def check_quant(p, obs):
    from pfrl import action_value as AV

    rng = np.random.RandomState(p["prog"])
    for rep in range(4):
        x = values(rng, (p["B"], p["T"], p["A"]), p["regime"], p["scale"] if p["scale"] < 1e10 else 1.0)
        Q = x.astype(np.float64).mean(axis=1)
        S = float(np.abs(x).max()) + 1e-30
        tx = torch.as_tensor(x.copy()).requires_grad_()

        def verify(av, X, Qx):
            B = len(Qx)
            discrete_common(av, Qx, rng, obs, S, False)
            expectation(av, Qx, rng, obs, S)
            r = np.arange(B)
            a = rng.randint(0, p["A"], B)
            exact(av.evaluate_actions_as_quantiles(torch.as_tensor(a)), X[r, :, a], "quantiles of an action", obs)
            exact(av.evaluate_actions_as_quantiles(torch.as_tensor(a).int()), X[r, :, a], "quantiles of an action", obs)

        av = AV.QuantileDiscreteActionValue(tx)
        verify(av, x, Q)
        for i, sel in indices(rng, p["B"]):
            verify(av[i], x[sel], Q[sel])
        if rep == 0:
            sub_gradient(av, tx, rng, obs, p["A"])
            i, sel = indices(rng, p["B"])[rng.randint(9)]
            a = rng.randint(0, p["A"], len(sel))
            gr, = torch.autograd.grad(av[i].evaluate_actions_as_quantiles(torch.as_tensor(a)).sum(), tx, retain_graph=True)
            want = np.zeros_like(x)
            np.add.at(want.transpose(0, 2, 1), (sel, a), 1)
            exact(gr, want, "gradient of the quantiles of a selection", obs)
        a = rng.randint(0, p["A"], p["B"])
        gr, = torch.autograd.grad(av.evaluate_actions_as_quantiles(torch.as_tensor(a)).sum(), tx)
        want = np.zeros_like(x)
        want[np.arange(p["B"]), :, a] = 1
        exact(gr, want, "gradient of the quantiles", obs)
        obs.sig("quant", p["B"], p["A"], p["T"], p["regime"], p["scale"])


# -- quadratic ---------------------------------------------------------------------

def gen_quad(rng, tier):
    n = int(rng.choice([1, 2, 3, 6]))
    return dict(B=int(rng.choice([1, 2, 5, 16])), n=n, bounds=str(rng.choice(["none", "both", "low", "high", "scalar", "wide"])),
                corr=bool(rng.rand() < 0.6), scale=float(rng.choice([0.1, 1, 10])), prog=int(rng.randint(2**31)))


def quad(mu, P, v, u):
    d = u - mu
    return v - 0.5 * np.einsum("...i,...ij,...j->...", d, P, d)


def check_quad(p, obs):
    from pfrl import action_value as AV

    rng = np.random.RandomState(p["prog"])
    B, n = p["B"], p["n"]
    for rep in range(5):
        mu = (rng.randn(B, n) * p["scale"]).astype(np.float32)
        if p["corr"]:
            L = np.tril(rng.randn(B, n, n), -1) + np.eye(n) * rng.uniform(0.2, 2, (B, 1, n))
            P = np.einsum("bij,bkj->bik", L, L).astype(np.float32)
        else:
            P = (np.eye(n) * rng.uniform(0.05, 4, (B, 1, n))).astype(np.float32)
        v = (rng.randn(B, 1) * 5).astype(np.float32)
        lo = hi = None
        shift = np.float32([0, 0, -3, 3][rng.randint(4)])  # ranges need not contain zero
        if p["bounds"] in ("both", "low"):
            lo = np.round(rng.uniform(-2, 0, n), 2).astype(np.float32) + shift
        if p["bounds"] in ("both", "high"):
            hi = np.round(rng.uniform(0.1, 2, n), 2).astype(np.float32) + shift
        if p["bounds"] == "wide":
            lo, hi = np.full(n, -100, np.float32), np.full(n, 100, np.float32)
        if p["bounds"] == "scalar":
            lo, hi = [(-1.0, 2), (-3, -0.5), (1, 4.0), (0, 1)][rng.randint(4)]
        t = [torch.as_tensor(x.copy()).requires_grad_() for x in (mu, P, v)]
        lov = np.full(n, -np.inf) if lo is None else np.broadcast_to(lo, (n,)).astype(np.float64)
        hiv = np.full(n, np.inf) if hi is None else np.broadcast_to(hi, (n,)).astype(np.float64)
        M, PP, V = mu.astype(np.float64), P.astype(np.float64), v[:, 0].astype(np.float64)

        def verify(av, sel):
            b = len(sel)
            m, pp, vv = M[sel], PP[sel], V[sel]
            g = av.greedy_actions.detach().numpy().astype(np.float64)
            obs.require(g.shape == (b, n), "shape of greedy actions")
            obs.require(bool(np.all(g >= lov) and np.all(g <= hiv)), "greedy action outside the range")
            S = np.abs(vv) + 0.5 * np.einsum("bi,bij,bj->b", np.abs(m) + 110, np.abs(pp), np.abs(m) + 110) * 1e-2 + 1
            qg = quad(m, pp, vv, g)
            close(av.max, qg, S, "max versus the value at the greedy action", obs)
            inside = np.all((m >= lov) & (m <= hiv), axis=1)
            for j in np.nonzero(inside)[0]:
                obs.require(np.allclose(g[j], m[j], rtol=1e-6, atol=1e-7), "greedy action is not mu although mu is in the range")
            for k in range(4):
                u = (rng.randn(b, n) * (1 + 2 * p["scale"])).astype(np.float32)
                u64 = u.astype(np.float64)
                qu = quad(m, pp, vv, u64)
                Su = np.abs(vv) + 0.5 * np.einsum("bi,bij,bj->b", np.abs(u64 - m), np.abs(pp), np.abs(u64 - m)) + 1 + np.abs(qg)
                tu = torch.as_tensor(u)
                close(av.evaluate_actions(tu), qu, Su, "value of an action", obs)
                close(av.compute_advantage(tu), qu - qg, Su + S, "advantage", obs)
                w = torch.as_tensor((rng.randn(b, n)).astype(np.float32))
                qw = quad(m, pp, vv, w.numpy().astype(np.float64))
                Sw = Su + np.abs(vv) + 0.5 * np.einsum("bi,bij,bj->b", np.abs(w.numpy() - m), np.abs(pp), np.abs(w.numpy() - m))
                close(av.compute_double_advantage(tu, w), qu - qw, Sw, "double advantage", obs)
            # no action of the range is better
            clip = np.clip(m, lov, hiv)
            for j in range(b):
                diag = np.allclose(pp[j], np.diag(np.diag(pp[j])))
                cand = rng.randn(300, n) * rng.choice([0.1, 1, 3], (300, 1)) + g[j]
                cand = np.clip(cand, lov, hiv)
                qc = quad(m[j], pp[j], vv[j], cand)
                better = qc.max() > qg[j] + 1e-4 * S[j] * 0.1 + 1e-3
                if better:
                    if not inside[j] and not diag and np.allclose(g[j], clip[j], rtol=1e-6, atol=1e-6):
                        obs.known.append("quadratic-clipped-mu-correlated")
                        obs.n("known_clipped_mu")
                    else:
                        c = cand[qc.argmax()]
                        obs.require(False, "action %s has value %.5f, the greedy action %s only %.5f" % (c, qc.max(), g[j], qg[j]))
                obs.n("samples")

        av = AV.QuadraticActionValue(*t, min_action=lo, max_action=hi)
        verify(av, np.arange(B))
        for i, sel in indices(rng, B):
            verify(av[i], sel)
        u = torch.as_tensor(rng.randn(B, n).astype(np.float32))
        gm, gP, gv = torch.autograd.grad(av.evaluate_actions(u).sum(), t)
        d = u.numpy().astype(np.float64) - M
        sc = np.abs(np.einsum("bij,bj->bi", np.abs(PP), np.abs(d))) + 1
        close(gm, np.einsum("bij,bj->bi", 0.5 * (PP + PP.transpose(0, 2, 1)), d), sc, "gradient to mu", obs)
        close(gP, -0.5 * np.einsum("bi,bj->bij", d, d), 1 + (d**2).max(), "gradient to P", obs)
        exact(gv, np.ones((B, 1), np.float32), "gradient to v", obs)
        obs.require(len(av.params) == 3, "params")
        obs.sig("quad", B, n, p["bounds"], p["corr"], p["scale"])


def check_single(p, obs):
    from pfrl import action_value as AV

    rng = np.random.RandomState(p["prog"])
    for rep in range(5):
        B, n = p["B"], p["n"]
        c = torch.as_tensor(rng.randn(B, n).astype(np.float32))
        calls = [0]

        def ev(a):
            return -((a - c) ** 2).sum(dim=1) + 3

        def mx():
            calls[0] += 1
            return c

        av = AV.SingleActionValue(ev, mx)
        u, w = [torch.as_tensor(rng.randn(B, n).astype(np.float32)) for _ in range(2)]
        exact(av.greedy_actions, c.numpy(), "greedy actions", obs)
        exact(av.max, ev(c).numpy(), "max", obs)
        exact(av.evaluate_actions(u), ev(u).numpy(), "value", obs)
        exact(av.compute_advantage(u), (ev(u) - ev(c)).numpy(), "advantage", obs)
        exact(av.compute_double_advantage(u, w), (ev(u) - ev(w)).numpy(), "double advantage", obs)
        obs.n("samples", B)
        obs.sig("single", B, n)


# -- q functions ---------------------------------------------------------------------

QF = ["fc", "dist", "quad", "dueling", "distdueling", "sa", "sabn", "salatebn", "salate", "single", "singlesa", "tril", "tanh"]


def gen_qf(rng, tier):
    return dict(kind=QF[rng.randint(len(QF))], B=int(rng.choice([1, 2, 5])), n=int(rng.choice([1, 2, 3, 5])), A=int(rng.choice([1, 2, 4, 9])),
                layers=int(rng.choice([1, 2, 3])), atoms=int(rng.choice([2, 5, 51])), scale_mu=bool(rng.rand() < 0.5),
                xs=float(rng.choice([0.1, 1.0, 30.0])), prog=int(rng.randint(2**31)))


def scramble(m, rng, s):
    with torch.no_grad():
        for x in m.parameters():
            x.add_(torch.as_tensor(rng.randn(*x.shape).astype(np.float32) * s))


def per_sample(obs, whole, parts, msg, rel=1e-4):
    w = whole.detach().numpy().astype(np.float64)
    q = np.concatenate([x.detach().numpy() for x in parts]).astype(np.float64)
    S = np.abs(w).max() + 1e-6
    obs.require(w.shape == q.shape and bool(np.all(np.abs(w - q) <= rel * S)), lambda: "%s of a batch and of its single samples differ" % msg)


def check_qf(p, obs):
    import gym.spaces
    from pfrl import q_functions as QFM
    from pfrl.functions.lower_triangular_matrix import lower_triangular_matrix

    rng = np.random.RandomState(p["prog"])
    k, B, n, A = p["kind"], p["B"], p["n"], p["A"]
    D = int(rng.randint(1, 6))
    x = torch.as_tensor((rng.randn(B, D) * p["xs"]).astype(np.float32))
    one = [x[i:i + 1] for i in range(B)]
    if k == "tril":
        diag = rng.randn(B, n).astype(np.float32)
        nd = rng.randn(B, n * (n - 1) // 2).astype(np.float32)
        td, tn = torch.as_tensor(diag).requires_grad_(), torch.as_tensor(nd).requires_grad_()
        y = lower_triangular_matrix(td, tn)
        want = np.zeros((B, n, n), np.float32)
        for b in range(B):
            q = 0
            for i in range(n):
                want[b, i, i] = diag[b, i]
                for j in range(i):
                    want[b, i, j] = nd[b, q]
                    q += 1
        exact(y, want, "lower triangular matrix", obs)
        w = rng.randn(B, n, n).astype(np.float32)
        gs = torch.autograd.grad((y * torch.as_tensor(w)).sum(), [td] + ([tn] if n > 1 else []))
        exact(gs[0], w[:, np.arange(n), np.arange(n)], "gradient of the diagonal", obs)
    elif k == "tanh":
        lo = np.round(rng.uniform(-5, 0, n), 2).astype(np.float32)
        hi = lo + np.round(rng.uniform(0.1, 5, n), 2).astype(np.float32)
        z = (rng.randn(B, n) * 3 * p["xs"]).astype(np.float32)
        from pfrl.functions.bound_by_tanh import bound_by_tanh
        from pfrl.q_functions import state_q_functions
        fs = [bound_by_tanh] + [getattr(state_q_functions, q) for q in ("scale_by_tanh",) if hasattr(state_q_functions, q)]
        for f in fs:
            y = f(torch.as_tensor(z), low=lo, high=hi).numpy()
            want = np.tanh(z.astype(np.float64)) * (hi.astype(np.float64) - lo) / 2 + (hi.astype(np.float64) + lo) / 2
            close(y, want, 10, "tanh bound", obs, rel=1e-6)
            obs.require(bool(np.all(y >= lo - 1e-5) and np.all(y <= hi + 1e-5)), "bounded value outside the bounds")
    elif k in ("fc", "single"):
        if k == "fc":
            m = QFM.FCStateQFunctionWithDiscreteAction(D, A, 7, p["layers"])
        else:
            m = QFM.SingleModelStateQFunctionWithDiscreteAction(torch.nn.Linear(D, A))
        scramble(m, rng, 0.3)
        av = m(x)
        raw = m.model(x)
        exact(av.q_values, raw.detach().numpy(), "q values of the model", obs)
        discrete_common(av, raw.detach().numpy().astype(np.float64), rng, obs, float(raw.abs().max()), True)
        per_sample(obs, av.q_values, [m(o).q_values for o in one], "values")
    elif k == "dist":
        lo = float(rng.uniform(-10, 0))
        hi = lo + float(rng.uniform(1, 20))
        m = QFM.DistributionalFCStateQFunctionWithDiscreteAction(D, A, p["atoms"], lo, hi, 7, p["layers"])
        scramble(m, rng, 0.5)
        av = m(x)
        z = np.linspace(lo, hi, p["atoms"])
        P = av.q_dist.detach().numpy().astype(np.float64)
        obs.require(P.shape == (B, A, p["atoms"]), "shape of the distribution")
        obs.require(bool(np.all(P >= 0) and np.allclose(P.sum(axis=2), 1, atol=1e-5)), "not a distribution over atoms")
        Q = (P * z).sum(axis=2)
        discrete_common(av, Q, rng, obs, max(abs(lo), abs(hi)), False)
        per_sample(obs, av.q_dist, [m(o).q_dist for o in one], "distributions")
        obs.require(bool(np.all(Q >= lo - 1e-4) and np.all(Q <= hi + 1e-4)), "value outside the support")
    elif k == "quad":
        lo = np.round(rng.uniform(-5, 0, n), 2).astype(np.float32)
        hi = lo + np.round(rng.uniform(0.1, 5, n), 2).astype(np.float32)
        m = QFM.FCQuadraticStateQFunction(D, n, 7, p["layers"], gym.spaces.Box(lo, hi), scale_mu=p["scale_mu"])
        scramble(m, rng, 0.2)
        x = x / max(p["xs"], 1.0)
        one = [x[i:i + 1] for i in range(B)]
        av = m(x)
        g = av.greedy_actions.detach().numpy()
        obs.require(g.shape == (B, n) and bool(np.all(g >= lo) and np.all(g <= hi)), "greedy action outside the action space")
        mat = av.mat.detach().numpy().astype(np.float64)
        obs.require(mat.shape == (B, n, n) and np.allclose(mat, mat.transpose(0, 2, 1), rtol=1e-5, atol=1e-6), "the coefficient matrix is not symmetric")
        ev = np.linalg.eigvalsh(mat)
        obs.require(bool(np.all(ev > -1e-5 * (1 + np.abs(ev).max()))), "the coefficient matrix is not positive definite")
        mu = av.mu.detach().numpy()
        if p["scale_mu"]:
            obs.require(bool(np.all(mu >= lo - 1e-5) and np.all(mu <= hi + 1e-5)), "mu outside the action space")
        close(av.evaluate_actions(av.mu), av.v.detach().numpy()[:, 0], 1, "Q at mu versus V", obs)
        u = torch.as_tensor(rng.uniform(lo, hi, (B, n)).astype(np.float32))
        q = av.evaluate_actions(u)
        obs.require(bool((q <= av.v[:, 0] + 1e-4 * (1 + av.v.abs().max())).all()), "an action has a higher value than V")
        per_sample(obs, q, [m(x[i:i + 1]).evaluate_actions(u[i:i + 1]) for i in range(B)], "values")
        per_sample(obs, av.max, [m(o).max for o in one], "maxima")
    elif k in ("dueling", "distdueling"):
        ch = int(rng.choice([1, 4]))
        img = torch.as_tensor(rng.rand(B, ch, 84, 84).astype(np.float32))
        if k == "dueling":
            m = QFM.DuelingDQN(A, n_input_channels=ch)
        else:
            m = QFM.DistributionalDuelingDQN(A, p["atoms"], -3, 7, n_input_channels=ch)
        scramble(m, rng, 0.01)
        got = {}
        hs = [m.v_stream.register_forward_hook(lambda mod, i, o: got.__setitem__("v", o.detach().clone())),
              m.a_stream.register_forward_hook(lambda mod, i, o: got.__setitem__("a", o.detach().clone()))]
        with torch.no_grad():
            av = m(img)
        for h in hs:
            h.remove()
        if k == "dueling":
            a, v = got["a"].numpy().astype(np.float64), got["v"].numpy().astype(np.float64)
            close(av.q_values, v + a - a.mean(axis=1, keepdims=True), 1, "dueling values", obs, rel=1e-4)
            close(av.q_values.mean(dim=1), v[:, 0], 1, "mean of dueling values versus state value", obs, rel=1e-4)
            discrete_common(av, av.q_values.numpy().astype(np.float64), rng, obs, 1.0, True)
            with torch.no_grad():
                per_sample(obs, av.q_values, [m(img[i:i + 1]).q_values for i in range(B)], "values", rel=1e-3)
        else:
            T = p["atoms"]
            a = got["a"].numpy().astype(np.float64).reshape(B, A, T)
            v = got["v"].numpy().astype(np.float64).reshape(B, 1, T)
            lg = v + a - a.mean(axis=1, keepdims=True)
            e = np.exp(lg - lg.max(axis=2, keepdims=True))
            close(av.q_dist, e / e.sum(axis=2, keepdims=True), 1, "dueling distribution", obs, rel=1e-4)
            z = np.linspace(-3, 7, T)
            discrete_common(av, (av.q_dist.numpy().astype(np.float64) * z).sum(axis=2), rng, obs, 10.0, False)
            with torch.no_grad():
                per_sample(obs, av.q_dist, [m(img[i:i + 1]).q_dist for i in range(B)], "distributions", rel=1e-3)
    else:
        cls = dict(sa=QFM.FCSAQFunction, sabn=QFM.FCBNSAQFunction, salatebn=QFM.FCBNLateActionSAQFunction, salate=QFM.FCLateActionSAQFunction)
        if k == "singlesa":
            class Inner(torch.nn.Module):
                def __init__(self):
                    super().__init__()
                    self.l = torch.nn.Linear(D + n, 1)

                def forward(self, x, a):
                    return self.l(torch.cat((x, a), dim=1))
            m = QFM.SingleModelStateActionQFunction(Inner())
        else:
            m = cls[k](D, n, 7, p["layers"])
        scramble(m, rng, 0.3)
        m.eval()
        u = torch.as_tensor(rng.randn(B, n).astype(np.float32))
        y = m(x, u)
        obs.require(tuple(y.shape) == (B, 1), lambda: "shape %s" % (tuple(y.shape),))
        per_sample(obs, y, [m(x[i:i + 1], u[i:i + 1]) for i in range(B)], "values")
        perm = torch.as_tensor(rng.permutation(B))
        per_sample(obs, y[perm], [m(x[perm], u[perm])], "values of a permuted batch")
        # depends on both inputs of its own sample only
        xx, uu = x.clone().requires_grad_(), u.clone().requires_grad_()
        j = int(rng.randint(B))
        gx, gu = torch.autograd.grad(m(xx, uu)[j].sum(), [xx, uu])
        other = [i for i in range(B) if i != j]
        obs.require(float(gx[other].abs().sum()) == 0 and float(gu[other].abs().sum()) == 0, "a value depends on another sample")
    obs.n("samples", B)
    obs.sig(k, B, n, A, p["layers"], p["atoms"], p["scale_mu"])


KINDS = [
    Kind("discrete", gen_d, check_discrete, 360, 4000),
    Kind("distributional", gen_d, check_dist, 300, 4000),
    Kind("quantile", gen_d, check_quant, 300, 4000),
    Kind("quadratic", gen_quad, check_quad, 300, 4000),
    Kind("single", gen_quad, check_single, 20, 200),
    Kind("qfunc", gen_qf, check_qf, 600, 8000),
]
