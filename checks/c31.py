"""C31: policy heads, network building blocks and initializers compute their documented functions."""
import math

import numpy as np
import torch
import torch.nn.functional as F
from torch import nn

from vlib.core import Kind

LEVEL = "exploration"
RULE = (
    "heads: every policy head is evaluated on random inputs (batch sizes, action sizes, magnitudes, parameters) and the "
    "returned distribution's mean, deviation, log-probability, entropy, gradients, modes and samples are compared with "
    "double precision formulas. blocks: MLP, MLPBN, LinearBN, the Atari CNNs, Branched, Lambda, BoundByTanh and ConcatObsAndAction "
    "with random options, in training and evaluation mode, against functional references built from their own parameters. "
    "init: initial parameters against their documented laws. noisy: the noise of noisy layers is recovered from "
    "outputs of probe batches and tested for factorised form, freshness, law and gradients. distinct_nontrivial counts distinct (unit, options)."
)
ACT = {"relu": F.relu, "tanh": torch.tanh, "elu": F.elu, "sig": torch.sigmoid}


def close(a, b, rtol=1e-4, atol=1e-5):
    a, b = a.detach().double(), b.detach().double()
    return a.shape == b.shape and bool(torch.allclose(a, b, rtol=rtol, atol=atol))


def ks_ok(x, cdf):
    """Distance of the empirical distribution within the DKW bound (false alarm < 1e-13)."""
    x = np.sort(np.asarray(x, dtype=np.float64).ravel())
    n = len(x)
    c = cdf(x)
    d = max(np.max(np.arange(1, n + 1) / n - c), np.max(c - np.arange(n) / n))
    return d <= math.sqrt(math.log(2 / 1e-13) / (2 * n)), d


def ncdf(x):
    from torch import special

    return special.ndtr(torch.as_tensor(np.asarray(x, dtype=np.float64))).numpy()


def normal_ok(obs, x, what):
    x = np.asarray(x, dtype=np.float64).ravel()
    n = len(x)
    ok, d = ks_ok(x, ncdf)
    obs.require(ok, lambda: "%s: not standard normal (distance %g of %d)" % (what, d, n))
    s = float((x**2).sum())
    obs.require(abs(s - n) <= 8 * math.sqrt(2 * n) + 60, lambda: "%s: variance %g instead of 1 (%d values)" % (what, s / n, n))
    obs.require(abs(float(x.sum())) <= 8 * math.sqrt(n), lambda: "%s: mean %g instead of 0 (%d values)" % (what, x.mean(), n))
    obs.n("law_samples", n)


# ---------------------------------------------------------------- heads
HEADS = ["softmax", "spherical", "diagonal", "diag-cov", "fixed", "deterministic", "delta", "mode"]
VARF = {"softplus": (F.softplus, lambda x: torch.log1p(torch.exp(x))), "exp": (torch.exp, torch.exp), "square": (lambda x: x**2 + 0.1, lambda x: x**2 + 0.1)}


def gen_heads(rng, tier):
    return dict(head=HEADS[rng.randint(len(HEADS))], batch=int(rng.choice([1, 2, 5, 16])), size=int(rng.choice([1, 2, 3, 7])),
                var=sorted(VARF)[rng.randint(3)], scale=float(rng.choice([0.0, 0.5, 1.0, 3.0, 10.0])), default=bool(rng.rand() < 0.3),
                vinit=float(rng.choice([0.0, -2.0, 1.5])), prog=int(rng.randint(2**31)))


def check_gauss(p, obs, d, mean, std, leaf, g):
    B, A = mean.shape
    obs.require(close(d.mean, mean, 1e-6, 1e-7), lambda: "mean of the %s head differs" % p["head"])
    obs.require(close(d.stddev, std.expand(B, A), 1e-5, 1e-7), lambda: "standard deviation of the %s head: %s instead of %s" % (p["head"], d.stddev, std))
    a = mean + std * torch.randn(B, A, generator=g)
    z = ((a - mean) / std).double()
    lp = (-0.5 * z**2 - torch.log(std.double()) - 0.5 * math.log(2 * math.pi)).sum(1)
    obs.require(close(d.log_prob(a), lp, 1e-3, 1e-3), lambda: "log-probability of the %s head: %s instead of %s" % (p["head"], d.log_prob(a), lp))
    ent = (0.5 * math.log(2 * math.pi * math.e) + torch.log(std.double())).expand(B, A).sum(1)
    obs.require(close(d.entropy(), ent, 1e-4, 1e-4), lambda: "entropy of the %s head" % p["head"])
    s = d.sample()
    obs.require(s.shape == mean.shape and not s.requires_grad, "a sample has shape %s" % (tuple(s.shape),))
    r = d.rsample()
    obs.require(r.shape == mean.shape, "a sample has shape %s" % (tuple(r.shape),))
    if leaf is not None:
        c = torch.randn(B, A, generator=g)
        z = ((r - d.mean) / d.stddev).detach()
        got = torch.autograd.grad((r * c).sum(), leaf, retain_graph=True)[0]
        obs.require(got is not None and bool(torch.isfinite(got).all()), "samples of the %s head are not differentiable" % p["head"])
    x = d.sample((64,))
    zz = ((x - mean) / std).detach()
    normal_ok(obs, zz, "standardised samples of the %s head" % p["head"])


def check_heads(p, obs):
    import pfrl

    g = torch.Generator().manual_seed(p["prog"])
    B, A = p["batch"], p["size"]
    f, ref = VARF[p["var"]]
    h = p["head"]
    if h == "softmax":
        x = (torch.randn(B, A, generator=g) * p["scale"]).requires_grad_()
        d = pfrl.policies.SoftmaxCategoricalHead()(x)
        pr = torch.softmax(x.detach().double(), 1)
        obs.require(close(d.probs, pr, 1e-4, 1e-6), "probabilities of the softmax head")
        lp = torch.log_softmax(x.double(), 1)
        a = torch.randint(A, (B,), generator=g)
        obs.require(close(d.log_prob(a), lp[torch.arange(B), a], 1e-4, 1e-4), "log-probability of the softmax head")
        obs.require(close(d.entropy(), -(pr * lp).sum(1), 1e-4, 1e-4), "entropy of the softmax head")
        got = torch.autograd.grad(d.log_prob(a).sum(), x)[0]
        obs.require(close(got, F.one_hot(a, A).double() - pr, 1e-4, 1e-5), "gradient of the softmax head")
        s = d.sample()
        obs.require(s.shape == (B,) and int(s.max()) < A, "sample of the softmax head")
    elif h in ("spherical", "diagonal"):
        kw = {} if p["default"] else dict(var_type=h, var_func=f, var_param_init=p["vinit"])
        m = pfrl.policies.GaussianHeadWithStateIndependentCovariance(A, **kw)
        ps = list(m.parameters())
        n = 1 if p["default"] or h == "spherical" else A
        obs.require(len(ps) == 1 and ps[0].numel() == n, lambda: "variance parameters %s" % [tuple(q.shape) for q in ps])
        init = 0.0 if p["default"] else p["vinit"]
        obs.require(bool((ps[0] == init).all()), lambda: "initial variance parameter %s instead of %g" % (ps[0], init))
        with torch.no_grad():
            ps[0].add_(torch.randn(ps[0].shape, generator=g) * 0.5)
        r = VARF["softplus"][1] if p["default"] else ref
        mean = torch.randn(B, A, generator=g) * p["scale"]
        check_gauss(p, obs, m(mean), mean, r(ps[0].detach().double()).sqrt().float().expand(B, A), ps[0], g)
    elif h == "diag-cov":
        m = pfrl.policies.GaussianHeadWithDiagonalCovariance(**({} if p["default"] else dict(var_func=f)))
        r = VARF["softplus"][1] if p["default"] else ref
        x = torch.randn(B, 2 * A, generator=g)
        x[:, :A] *= p["scale"]
        x.requires_grad_()
        check_gauss(p, obs, m(x), x.detach()[:, :A], r(x.detach()[:, A:].double()).sqrt().float(), x, g)
    elif h == "fixed":
        sc = 1.0 if p["default"] else float(abs(p["vinit"]) + 0.2)
        m = pfrl.policies.GaussianHeadWithFixedCovariance(**({} if p["default"] else dict(scale=sc)))
        obs.require(not list(m.parameters()), "the fixed covariance head has parameters")
        x = (torch.randn(B, A, generator=g) * p["scale"]).requires_grad_()
        check_gauss(p, obs, m(x), x.detach(), torch.full((B, A), sc), x, g)
    elif h in ("deterministic", "delta"):
        x = torch.randn(B, A, generator=g).requires_grad_()
        det = h == "deterministic"
        d = pfrl.policies.DeterministicHead()(x) if det else pfrl.distributions.Delta(x)
        obs.require(d.batch_shape == (B,) + (() if det else (A,)) and d.event_shape == ((A,) if det else ()), "shapes of the deterministic distribution")
        obs.require(close(d.mean, x, 0, 0) and bool((d.variance == 0).all()) and bool((d.stddev == 0).all()), "moments of the deterministic distribution")
        for sh in ((), (3,), (2, 4)):
            s, r = d.sample(torch.Size(sh)), d.rsample(torch.Size(sh))
            obs.require(s.shape == sh + (B, A) and r.shape == sh + (B, A), "shape of deterministic samples")
            obs.require(close(s, x.detach().expand(s.shape), 0, 0) and close(r, x.detach().expand(r.shape), 0, 0), "deterministic samples differ from the location")
            obs.require(not s.requires_grad, "sample() of the deterministic distribution carries gradients")
            got = torch.autograd.grad(r.sum(), x)[0]
            obs.require(close(got, torch.full((B, A), float(np.prod(sh))), 1e-6, 0), "gradient of the deterministic samples")
        e = pfrl.distributions.Delta(x).expand((4, B, A))
        obs.require(e.batch_shape == (4, B, A) and close(e.sample(), x.detach().expand(4, B, A), 0, 0), "expanded delta distribution")
    else:
        check_modes(p, obs, g)
    obs.sig(h, p["var"], p["default"], B, A)


def check_modes(p, obs, g):
    from pfrl.utils.mode_of_distribution import mode_of_distribution

    D = torch.distributions
    B, A = p["batch"], p["size"]
    lo = torch.randn(B, A, generator=g) * p["scale"]
    gap = lo.sort(1).values
    m = mode_of_distribution(D.Categorical(logits=lo))
    if A == 1 or float((gap[:, -1] - gap[:, -2]).min()) > 1e-4:
        obs.require(torch.equal(m, lo.argmax(1)), "mode of a categorical distribution")
    pr = torch.rand(3, B, A, generator=g) + 0.01
    obs.require(torch.equal(mode_of_distribution(D.Categorical(probs=pr)), pr.argmax(-1)), "mode of a batch of categorical distributions")
    sd = torch.rand(B, A, generator=g) + 0.1
    n = D.Normal(lo, sd)
    obs.require(torch.equal(mode_of_distribution(n), lo), "mode of a normal distribution")
    obs.require(torch.equal(mode_of_distribution(D.Independent(n, 1)), lo), "mode of an independent normal distribution")
    obs.require(torch.equal(mode_of_distribution(D.MultivariateNormal(lo, torch.diag_embed(sd))), lo), "mode of a multivariate normal distribution")
    k, c = torch.randn(A, generator=g), torch.rand(A, generator=g) + 0.5
    T = D.transforms
    for tr, want in (
        ([T.TanhTransform()], torch.tanh(lo)),
        ([T.AffineTransform(k, c)], k + c * lo),
        ([T.AffineTransform(k, c), T.TanhTransform()], torch.tanh(k + c * lo)),
        ([T.TanhTransform(), T.AffineTransform(k, c)], k + c * torch.tanh(lo)),
    ):
        for base in (n, D.Independent(n, 1)):
            d = D.TransformedDistribution(base, tr)
            obs.require(close(mode_of_distribution(d), want, 1e-5, 1e-6), lambda: "mode of a transformed distribution (%s)" % tr)
    d = D.TransformedDistribution(D.Independent(D.Independent(n, 1), 0), [])
    obs.require(torch.equal(mode_of_distribution(d), lo), "mode of a nested distribution")
    try:
        mode_of_distribution(D.Gamma(torch.ones(2), torch.ones(2)))
        obs.require(False, "a mode was returned for an unsupported distribution")
    except RuntimeError:
        pass


# ---------------------------------------------------------------- blocks
BLOCKS = ["mlp", "mlpbn", "linbn", "large", "small", "branched", "lambda", "tanh", "concat", "tril"]


def gen_blocks(rng, tier):
    return dict(block=BLOCKS[rng.randint(len(BLOCKS))], batch=int(rng.choice([2, 3, 8])), n_in=int(rng.choice([1, 3, 6])), n_out=int(rng.choice([1, 2, 5])),
                hidden=[int(rng.choice([1, 4, 7])) for _ in range(rng.randint(4))], act=sorted(ACT)[rng.randint(4)], default=bool(rng.rand() < 0.2),
                nin=bool(rng.randint(2)), nout=bool(rng.randint(2)), prog=int(rng.randint(2**31)))


def scramble(m, g):
    with torch.no_grad():
        for q in m.parameters():
            q.add_(torch.randn(q.shape, generator=g) * 0.3)
        for k, b in m.named_buffers():
            if b.dtype.is_floating_point:
                b.copy_(torch.rand(b.shape, generator=g) + 0.5)


def lins(m, kinds=(nn.Linear,)):
    return [x for x in m.modules() if isinstance(x, kinds)]


def bn_ref(bn, h, training):
    """Double precision batch normalisation with the module's current parameters; returns output and new running values."""
    h = h.double()
    if training:
        mu, var = h.mean(0), ((h - h.mean(0)) ** 2).mean(0)
        n = h.shape[0]
        mom = bn.momentum
        new = ((1 - mom) * bn.running_mean.double() + mom * mu, (1 - mom) * bn.running_var.double() + mom * var * n / (n - 1))
    else:
        mu, var = bn.running_mean.double(), bn.running_var.double()
        new = (mu, var)
    return (h - mu) / torch.sqrt(var + bn.eps) * bn.weight.double() + bn.bias.double(), new


def lin(layer, h):
    y = h.double() @ layer.weight.double().t()
    return y if layer.bias is None else y + layer.bias.double()


def check_blocks(p, obs):
    import pfrl
    from pfrl.functions.bound_by_tanh import bound_by_tanh
    from pfrl.functions.lower_triangular_matrix import lower_triangular_matrix

    torch.manual_seed(p["prog"] % 2**31)
    g = torch.Generator().manual_seed(p["prog"])
    B, I, O, H = p["batch"], p["n_in"], p["n_out"], p["hidden"]
    act = F.relu if p["default"] else ACT[p["act"]]
    kw = {} if p["default"] else dict(nonlinearity=act)
    b = p["block"]
    x = torch.randn(B, I, generator=g)
    if b == "mlp":
        m = pfrl.nn.MLP(I, O, tuple(H) if p["nin"] else H, **kw)
        scramble(m, g)
        ls = lins(m)
        sizes = [I] + H + [O]
        obs.require(len(ls) == len(H) + 1 and sorted((l.in_features, l.out_features) for l in ls) == sorted(zip(sizes, sizes[1:])), lambda: "layers of the MLP: %s for %s" % (ls, sizes))
        for xx in (x, torch.randn(2, B, I, generator=g)):
            h = xx.double()
            for l in ls[:-1]:
                h = act(lin(l, h))
            obs.require(close(m(xx), lin(ls[-1], h)), "the MLP computes another function")
    elif b in ("mlpbn", "linbn"):
        if b == "linbn":
            from pfrl.nn.mlp_bn import LinearBN

            m = LinearBN(I, O)
            nin, nout, H = False, True, []
        else:
            if p["default"]:
                m, nin, nout = pfrl.nn.MLPBN(I, O, H), True, False
            else:
                nin, nout = p["nin"], p["nout"]
                m = pfrl.nn.MLPBN(I, O, H, normalize_input=nin, normalize_output=nout, **kw)
        scramble(m, g)
        bns, ls = lins(m, (nn.BatchNorm1d,)), lins(m)
        obs.require(len(ls) == len(H) + 1 and len(bns) == len(H) + nin + nout, lambda: "layers of %s: %s" % (b, m))
        for training in (True, False, True, False):
            m.train(training)
            todo = list(bns)
            news = []

            def norm(h):
                y, new = bn_ref(todo[0], h, training)
                news.append((todo.pop(0), new))
                return y

            h = x.double()
            if nin:
                h = norm(h)
            for l in ls[:-1]:
                h = act(norm(lin(l, h)))
            h = lin(ls[-1], h)
            if nout:
                h = norm(h)
            got = m(x)
            scale = 1 + float(h.abs().max())
            obs.require(close(got, h, 2e-3, 2e-3 * scale), lambda: "%s computes another function (training %s): %s instead of %s" % (b, training, got, h))
            for bn, (mu, var) in news:
                obs.require(close(bn.running_mean, mu, 1e-3, 1e-3) and close(bn.running_var, var, 1e-3, 1e-3), lambda: "running statistics of %s (training %s)" % (b, training))
            x = torch.randn(B, I, generator=g) * 2 + 1
    elif b in ("large", "small"):
        c, n = int(1 + p["n_in"] % 5), 3 * O
        cls = pfrl.nn.LargeAtariCNN if b == "large" else pfrl.nn.SmallAtariCNN
        if p["default"]:
            c, n = 4, 512 if b == "large" else 256
            m = cls()
        else:
            m = cls(c, n, activation=act)
        scramble(m, g)
        cs, ls = lins(m, (nn.Conv2d,)), lins(m)
        spec = [(c, 32, 8, 4), (32, 64, 4, 2), (64, 64, 3, 1)] if b == "large" else [(c, 16, 8, 4), (16, 32, 4, 2)]
        got = [(q.in_channels, q.out_channels, q.kernel_size[0], q.stride[0]) for q in cs]
        obs.require(got == spec, lambda: "convolutions %s" % got)
        x = torch.rand(2, c, 84, 84, generator=g)
        h = x
        for q, s in zip(cs, spec):
            h = act(F.conv2d(h, q.weight, q.bias, stride=s[3]))
        h = act(F.linear(h.reshape(2, -1), ls[-1].weight, ls[-1].bias))
        y = m(x)
        obs.require(len(ls) == 1 and y.shape == (2, n) and close(y, h, 1e-3, 1e-3 * (1 + float(h.abs().max()))), "the CNN computes another function")
    elif b == "branched":
        k = int(1 + p["prog"] % 4)
        ms = [nn.Linear(I, i + 1) for i in range(k)]
        m = pfrl.nn.Branched(*ms)
        y = m(x)
        obs.require(isinstance(y, tuple) and len(y) == k and all(torch.equal(u, w(x)) for u, w in zip(y, ms)), "branches of Branched")
        obs.require({id(q) for q in m.parameters()} == {id(q) for w in ms for q in w.parameters()}, "parameters of Branched")

        class Two(nn.Module):
            def __init__(self, s):
                super().__init__()
                self.s = s

            def forward(self, u, v=None, w=1):
                return u * self.s, v, w

        y = pfrl.nn.Branched(*[Two(i) for i in range(k)])(x, 7, w="z")
        obs.require(len(y) == k and all(torch.equal(u[0], x * i) and u[1:] == (7, "z") for i, u in enumerate(y)), "arguments of Branched")
    elif b == "lambda":
        m = pfrl.nn.Lambda(lambda v: (v * 2).sum())
        obs.require(isinstance(m, nn.Module) and torch.equal(m(x), (x * 2).sum()) and torch.equal(nn.Sequential(nn.Identity(), m)(x), (x * 2).sum()), "Lambda")
    elif b == "tanh":
        lo = np.random.RandomState(p["prog"] % 2**31).uniform(-3, 3, I)
        hi = lo + np.random.RandomState(p["prog"] % 2**30).uniform(0, 5, I)
        lo, hi = lo.astype(np.float32), hi.astype(np.float32)
        x = (x * 4).requires_grad_()
        y = pfrl.nn.BoundByTanh(lo, hi)(x)
        th = torch.tanh(x.double())
        lo64, hi64 = torch.as_tensor(lo).double(), torch.as_tensor(hi).double()
        obs.require(close(y, lo64 + (th + 1) / 2 * (hi64 - lo64), 1e-4, 1e-5), lambda: "BoundByTanh: %s" % y)
        z = bound_by_tanh(x.detach(), lo, hi)
        obs.require(close(z, y, 1e-6, 1e-6), "bound_by_tanh and BoundByTanh differ")
        obs.require(bool((y >= torch.as_tensor(lo) - 1e-5).all() and (y <= torch.as_tensor(hi) + 1e-5).all()), "BoundByTanh leaves the bounds")
        got = torch.autograd.grad(y.sum(), x)[0]
        obs.require(close(got, (1 - th**2) * (hi64 - lo64) / 2, 1e-3, 1e-5), "gradient of BoundByTanh")
    elif b == "concat":
        m = pfrl.nn.ConcatObsAndAction()
        for sh in ((B,), (2, B), ()):
            o, a = torch.randn(*sh, I, generator=g), torch.randn(*sh, O, generator=g)
            y = m((o, a))
            obs.require(y.shape == sh + (I + O,) and torch.equal(y[..., :I], o) and torch.equal(y[..., I:], a), "ConcatObsAndAction")
    else:
        n = I
        dg = torch.randn(B, n, generator=g).requires_grad_()
        nd = torch.randn(B, n * (n - 1) // 2, generator=g).requires_grad_()
        y = lower_triangular_matrix(dg, nd)
        obs.require(y.shape == (B, n, n), "shape of the triangular matrix")
        w = torch.randn(B, n, n, generator=g)
        gd, gn = torch.autograd.grad((y * w).sum(), (dg, nd), allow_unused=True)
        for i in range(B):
            k = 0
            for r in range(n):
                for c in range(n):
                    if c > r:
                        want = 0.0
                    elif c == r:
                        want = float(dg[i, r])
                        obs.require(float(gd[i, r]) == float(w[i, r, c]), "gradient of the triangular matrix")
                    else:
                        want = float(nd[i, k])
                        obs.require(float(gn[i, k]) == float(w[i, r, c]), "gradient of the triangular matrix")
                        k += 1
                    obs.require(float(y[i, r, c]) == want, lambda: "triangular matrix [%d,%d]: %g instead of %g" % (r, c, float(y[i, r, c]), want))
    obs.sig(b, p["act"], p["nin"], p["nout"], len(H), p["default"])


# ---------------------------------------------------------------- initial parameters
INITS = ["lecun-linear", "lecun-conv", "chainer-linear", "chainer-conv", "chainer-nobias", "chainer-other", "mlp", "mlpbn", "large", "small", "noisy"]


def gen_init(rng, tier):
    return dict(init=INITS[rng.randint(len(INITS))], scale=float(rng.choice([0.01, 0.5, 1.0, 3.0])), default=bool(rng.rand() < 0.3),
                n_in=int(rng.choice([20, 60, 150])), n_out=int(rng.choice([10, 50])), bias=float(rng.choice([0.0, 0.1, -1.0])), prog=int(rng.randint(2**31)))


def lecun(obs, w, scale, what):
    fan = int(np.prod(w.shape[1:]))
    normal_ok(obs, (w.detach().double() * math.sqrt(fan) / scale).numpy(), what)


def check_init(p, obs):
    import pfrl
    from pfrl.initializers import init_chainer_default, init_lecun_normal

    torch.manual_seed(p["prog"] % 2**31)
    I, O, s = p["n_in"], p["n_out"], 1.0 if p["default"] else p["scale"]
    k = p["init"]
    if k.startswith("lecun"):
        w = nn.Parameter(torch.full((O, I) if k == "lecun-linear" else (O, 4, 3, 5), 7.0))
        r = init_lecun_normal(w) if p["default"] else init_lecun_normal(w, scale=s)
        obs.require(r is w or r.data_ptr() == w.data_ptr(), "init_lecun_normal did not initialise in place")
        obs.require(w.grad_fn is None and w.requires_grad, "init_lecun_normal left a graph")
        lecun(obs, w, s, "init_lecun_normal")
    elif k in ("chainer-linear", "chainer-conv", "chainer-nobias"):
        m = nn.Conv2d(3, O, (5, 3)) if k == "chainer-conv" else nn.Linear(I, O, bias=k != "chainer-nobias")
        r = init_chainer_default(m)
        obs.require(r is m, "init_chainer_default returns another layer")
        lecun(obs, m.weight, 1.0, "init_chainer_default")
        obs.require((m.bias is None) == (k == "chainer-nobias") and (m.bias is None or bool((m.bias == 0).all())), "bias of init_chainer_default")
        net = nn.Sequential(nn.Linear(I, O), nn.ReLU(), nn.Sequential(nn.Linear(O, 40)))
        net.apply(init_chainer_default)
        for q in lins(net):
            lecun(obs, q.weight, 1.0, "init_chainer_default applied to a network")
            obs.require(bool((q.bias == 0).all()), "bias of init_chainer_default applied to a network")
    elif k == "chainer-other":
        for m in (nn.BatchNorm1d(5), nn.LSTM(3, 4), nn.Embedding(3, 4), nn.ReLU()):
            old = {a: b.clone() for a, b in m.state_dict().items()}
            r = init_chainer_default(m)
            obs.require(r is m and all(torch.equal(old[a], b) for a, b in m.state_dict().items()), "init_chainer_default changed a %s" % type(m).__name__)
    elif k in ("mlp", "mlpbn"):
        cls = pfrl.nn.MLP if k == "mlp" else pfrl.nn.MLPBN
        hid = [] if p["n_in"] == 20 else [O, 30]
        m = cls(I, O, hid, **({} if p["default"] else dict(last_wscale=s)))
        ls = lins(m)
        lecun(obs, ls[-1].weight, s, "output layer of %s" % k)
        if k == "mlp":
            for q in ls:
                obs.require(bool((q.bias == 0).all()), "bias of the MLP is not zero")
            for q in ls[:-1]:
                lecun(obs, q.weight, 1.0, "hidden layer of the MLP")
    elif k in ("large", "small"):
        cls = pfrl.nn.LargeAtariCNN if k == "large" else pfrl.nn.SmallAtariCNN
        m = cls() if p["default"] else cls(2, 20, bias=p["bias"])
        for q in lins(m, (nn.Linear, nn.Conv2d)):
            lecun(obs, q.weight, 1.0, "layer of the CNN")
            want = 0.1 if p["default"] else p["bias"]
            obs.require(bool((q.bias == torch.tensor(want)).all()), lambda: "bias of the CNN: %s instead of %g" % (q.bias, want))
    else:
        l = nn.Linear(I, O, bias=p["bias"] != 0)
        m = pfrl.nn.FactorizedNoisyLinear(l) if p["default"] else pfrl.nn.FactorizedNoisyLinear(l, sigma_scale=s)
        s0 = 0.4 if p["default"] else s
        obs.require(m.mu.weight.shape == (O, I) and m.sigma.weight.shape == (O, I) and (m.mu.bias is None) == (l.bias is None) == (m.sigma.bias is None), "shapes of the noisy layer")
        w = m.mu.weight.detach().double().numpy() * math.sqrt(I)
        ok, d = ks_ok(w, lambda x: np.clip((x + 1) / 2, 0, 1))
        obs.require(ok and np.abs(w).max() <= 1 + 1e-5, lambda: "initial mean weights of the noisy layer (distance %g, largest %g)" % (d, np.abs(w).max()))
        obs.require(close(m.sigma.weight, torch.full((O, I), s0 / math.sqrt(I)), 1e-5, 0), "initial noise scale of the weights")
        if l.bias is not None:
            obs.require(close(m.sigma.bias, torch.full((O,), s0 / math.sqrt(O)), 1e-5, 0), "initial noise scale of the bias")
            obs.require(float(m.mu.bias.abs().max()) <= 1 / math.sqrt(I) + 1e-6, "initial mean bias of the noisy layer")
    obs.sig("init", k, p["default"], s, I, O)


# ---------------------------------------------------------------- noisy layers
def gen_noisy(rng, tier):
    return dict(n_in=int(rng.choice([1, 2, 5, 9])), n_out=int(rng.choice([1, 2, 6])), bias=bool(rng.rand() < 0.7), scale=float(rng.choice([0.2, 0.4, 1.0])),
                net=bool(rng.randint(2)), prog=int(rng.randint(2**31)))


def check_noisy(p, obs):
    import pfrl

    torch.manual_seed(p["prog"] % 2**31)
    g = torch.Generator().manual_seed(p["prog"])
    I, O = p["n_in"], p["n_out"]
    if p["net"]:
        base = nn.Linear(3, 4, bias=False)
        net = nn.Sequential(
            nn.Linear(I, O, bias=p["bias"]), nn.ReLU(), pfrl.nn.Branched(nn.Linear(O, 3), nn.Sequential(base, nn.Conv2d(2, 2, 1))), nn.ModuleList([nn.Linear(2, 5)]), nn.LSTM(3, 2), nn.BatchNorm1d(4))
        before = [(n, type(x), x) for n, x in net.named_modules()]
        kw = dict(sigma_scale=p["scale"])
        pfrl.nn.to_factorized_noisy(net, **kw)
        after = dict(net.named_modules())
        for n, t, x in before:
            if t is nn.Linear:
                y = after[n]
                obs.require(isinstance(y, pfrl.nn.FactorizedNoisyLinear), lambda: "layer %s was not made noisy" % n)
                obs.require(y.mu.weight.shape == x.weight.shape and (y.mu.bias is None) == (x.bias is None), lambda: "noisy layer %s has another shape" % n)
                obs.require(close(y.sigma.weight, torch.full(x.weight.shape, p["scale"] / math.sqrt(x.in_features)), 1e-5, 0), lambda: "noise scale of %s" % n)
            else:
                obs.require(after.get(n) is x, lambda: "module %s was replaced" % n)
        obs.require(all(not isinstance(m, nn.Linear) or n.rsplit(".", 1)[-1] in ("mu", "sigma") for n, m in after.items()), "a linear layer is left")
        layer = net[0]
    else:
        layer = pfrl.nn.FactorizedNoisyLinear(nn.Linear(I, O, bias=p["bias"]), sigma_scale=p["scale"])
    with torch.no_grad():
        for q in layer.sigma.parameters():
            q.copy_(0.3 + torch.rand(q.shape, generator=g))
        layer.sigma.weight[:, 0].mul_(-1)
        if p["bias"]:
            layer.sigma.bias[::2].mul_(-1)
    probe = torch.cat([torch.zeros(1, I), torch.eye(I)])
    rows_x, rows_y, kept = [], [], []
    N = 400
    for t in range(N):
        if t == N // 2:
            layer.eval()
        y = layer(probe)
        obs.require(y.shape == (I + 1, O), "output of the noisy layer has shape %s" % (tuple(y.shape),))
        b, W = y[0].detach().double(), (y[1:] - y[0]).detach().double().t()
        E = (W - layer.mu.weight.detach().double()) / layer.sigma.weight.detach().double()
        kept.append(E.numpy().copy())
        if p["bias"]:
            ey = (b - layer.mu.bias.detach().double()) / layer.sigma.bias.detach().double()
            i = int(ey.abs().argmax())
            ex = E[i] / ey[i]
            rows_x.append(ex.numpy())
            rows_y.append(ey.numpy())
            obs.require(bool(torch.allclose(torch.outer(ey, ex), E, atol=2e-4, rtol=2e-3)), lambda: "the noise of weights and biases is not factorised: %s" % E)
        else:
            obs.require(bool((b == 0).all()), "a bias appeared")
        # rank one
        i, j = divmod(int(E.abs().argmax()), I)
        obs.require(bool(torch.allclose(torch.outer(E[:, j], E[i]) / E[i, j], E, atol=2e-4, rtol=2e-3)), lambda: "the noise of the weights is not factorised: %s" % E)
        if t % 40 == 0:
            c = torch.randn(I + 1, O, generator=g)
            ps = [layer.mu.weight, layer.sigma.weight] + ([layer.mu.bias, layer.sigma.bias] if p["bias"] else [])
            gr = torch.autograd.grad((y * c).sum(), ps)
            gw = (c.t() @ probe).double()
            obs.require(close(gr[0], gw, 1e-4, 1e-4) and close(gr[1], gw * E, 1e-3, 2e-3), "gradient of the noisy weights")
            if p["bias"]:
                gb = c.sum(0).double()
                obs.require(close(gr[2], gb, 1e-4, 1e-4) and close(gr[3], gb * ey, 1e-3, 2e-3), "gradient of the noisy biases")
    flat = {k.tobytes() for k in kept}
    obs.require(len(flat) == N, lambda: "noise was reused: %d distinct of %d" % (len(flat), N))
    if p["bias"]:
        X, Y = np.array(rows_x), np.array(rows_y)
        sq = lambda v: np.sign(v) * v**2
        normal_ok(obs, sq(Y), "noise of the outputs")
        normal_ok(obs, sq(X), "noise of the inputs")
        Z = np.concatenate([sq(X), sq(Y)], 1)
        k = Z.shape[1]
        C = Z.T @ Z / N
        off = np.abs(C - np.diag(np.diag(C))).max() if k > 1 else 0.0
        obs.require(off <= 10 / math.sqrt(N), lambda: "the noise variables are correlated (%g)" % off)
        if N > 1:
            lag = np.abs((Z[1:] * Z[:-1]).mean(0)).max()
            obs.require(lag <= 10 / math.sqrt(N), lambda: "the noise of successive calls is correlated (%g)" % lag)
    obs.n("noise_draws", N)
    obs.sig("noisy", I, O, p["bias"], p["net"])


KINDS = [
    Kind("heads", gen_heads, check_heads, 1200, 12000),
    Kind("blocks", gen_blocks, check_blocks, 1200, 12000),
    Kind("init", gen_init, check_init, 800, 6000),
    Kind("noisy", gen_noisy, check_noisy, 240, 1000),
]
