"""C27: parameter synchronisation and gradient transfer reproduce the source exactly."""
import copy
import os

import numpy as np
import torch
from torch import nn

from vlib.core import Kind

LEVEL = "exploration"
RULE = (
    "copy / soft / grad: random architectures (linear, convolution, batch normalisation, LSTM, tied "
    "and frozen parameters, integer and zero-dimensional buffers, float64 parts, observation "
    "normaliser, the library's own q-functions) are snapshotted before and after the real functions "
    "and every element is compared, also for aliasing. clip: gradient sets of all magnitudes. "
    "optim: RMSpropEpsInsideSqrt step by step against a float64 reference for all options. shared: "
    "updates made in forked processes through shared memory are read back in the parent. agent: "
    "DDPG-type agents' target networks follow the update rule. distinct_nontrivial counts distinct "
    "(architecture, options)."
)

ARCH = ["mlp", "bn", "conv", "lstm", "tied", "latea", "latebn", "norm", "f64", "scalar", "frozen", "mixed", "buffers", "half"]


class Tied(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = nn.Linear(4, 4)
        self.b = nn.Linear(4, 4)
        self.b.weight = self.a.weight
        self.c = self.a

    def forward(self, x):
        return self.c(self.b(self.a(x)))


class Scal(nn.Module):
    def __init__(self):
        super().__init__()
        self.t = nn.Parameter(torch.tensor(0.3))
        self.l = nn.Linear(4, 1)

    def forward(self, x):
        return self.l(x) * self.t


class Bufs(nn.Module):
    def __init__(self):
        super().__init__()
        self.l = nn.Linear(4, 2)
        self.register_buffer("i", torch.arange(5))
        self.register_buffer("flag", torch.tensor(False))
        self.register_buffer("u8", torch.zeros(3, dtype=torch.uint8))
        self.register_buffer("f", torch.zeros(2, 3))

    def forward(self, x):
        return self.l(x)


def build(arch, rng):
    import pfrl

    torch.manual_seed(int(rng.randint(2**31)))
    if arch == "mlp":
        m = nn.Sequential(nn.Linear(4, 6), nn.ReLU(), nn.Linear(6, 2))
    elif arch == "bn":
        m = nn.Sequential(nn.Linear(4, 6), nn.BatchNorm1d(6), nn.Linear(6, 2))
    elif arch == "conv":
        m = nn.Sequential(nn.Conv2d(2, 3, 3), nn.BatchNorm2d(3), nn.Flatten(), nn.Linear(12, 2))
    elif arch == "lstm":
        m = pfrl.nn.RecurrentSequential(nn.Linear(4, 5), nn.LSTM(5, 3, num_layers=2), nn.Linear(3, 2))
    elif arch == "tied":
        m = Tied()
    elif arch == "latea":
        m = pfrl.q_functions.FCLateActionSAQFunction(4, 2, 5, 2)
    elif arch == "latebn":
        m = pfrl.q_functions.FCBNLateActionSAQFunction(4, 2, 5, 2)
    elif arch == "norm":
        m = nn.Sequential(pfrl.nn.EmpiricalNormalization(4), nn.Linear(4, 2))
    elif arch == "f64":
        m = nn.Sequential(nn.Linear(4, 6).double(), nn.Linear(6, 2))
    elif arch == "scalar":
        m = Scal()
    elif arch == "frozen":
        m = nn.Sequential(nn.Linear(4, 6), nn.Linear(6, 2))
        m[0].weight.requires_grad_(False)
    elif arch == "half":
        m = nn.Sequential(nn.Linear(4, 6).half(), nn.Linear(6, 2))
    elif arch == "buffers":
        m = Bufs()
    else:
        m = nn.ModuleDict(dict(x=Tied(), y=nn.Sequential(nn.BatchNorm1d(4), Scal()), z=Bufs()))
    fill(m, rng)
    return m


def fill(m, rng, s=1.0):
    """Random values, loaded through the public interface."""
    by = {}
    new = m.state_dict()
    for k, v in m.state_dict().items():
        q = v.data_ptr()
        if q not in by:
            if v.is_floating_point():
                x = rng.randn(*v.shape) * s * rng.choice([1e-3, 1, 1, 100])
                if "var" in k:
                    x = np.abs(x) + 0.1
                by[q] = torch.as_tensor(np.asarray(x)).to(v.dtype)
            elif v.dtype == torch.bool:
                by[q] = torch.tensor(bool(rng.rand() < 0.5))
            else:
                by[q] = torch.as_tensor(np.asarray(rng.randint(0, 100, tuple(v.shape)))).to(v.dtype)
        new[k] = by[q]
    m.load_state_dict(new)


def snap(m):
    return {k: (str(v.dtype), tuple(v.shape), v.detach().numpy().copy()) for k, v in m.state_dict().items()}


def same(a, b):
    return a.keys() == b.keys() and all(a[k][:2] == b[k][:2] and a[k][2].tobytes() == b[k][2].tobytes() for k in a)


def ptrs(m):
    return {k: v.data_ptr() for k, v in m.state_dict().items()}


def gen_arch(rng, tier):
    return dict(arch=ARCH[rng.randint(len(ARCH))], tau=float(rng.choice([0.0, 1.0, 0.5, 5e-3, 1e-3, 0.9, rng.rand()])),
                via=str(rng.choice(["fn", "sync"])), share=bool(rng.rand() < 0.3), rounds=4, prog=int(rng.randint(2**31)))


def setup(p):
    rng = np.random.RandomState(p["prog"])
    src = build(p["arch"], rng)
    dst = copy.deepcopy(src)
    fill(dst, rng)
    if p.get("share"):
        dst.share_memory()
    for m in (src, dst):
        for x in m.parameters():
            if x.requires_grad and rng.rand() < 0.7:
                x.grad = torch.as_tensor(rng.randn(*x.shape)).to(x.dtype)
    return rng, src, dst


def grads(m):
    return [None if x.grad is None else x.grad.detach().numpy().tobytes() for x in m.parameters()]


def outputs_norm(m, rng):
    x = torch.as_tensor(np.random.RandomState(5).randn(3, 4).astype(np.float32))
    return m[0](x, update=False).detach().numpy()


def check_copy(p, obs):
    from pfrl.utils.copy_param import copy_param, synchronize_parameters

    rng, src, dst = setup(p)
    for r in range(p["rounds"]):
        fill(src, rng)
        if p["arch"] == "norm":  # use both so that anything cached exists
            outputs_norm(src, rng), outputs_norm(dst, rng)
        s0, d_ptr, pid = snap(src), ptrs(dst), [id(x) for x in dst.parameters()]
        gs, gd = grads(src), grads(dst)
        if p["via"] == "fn":
            copy_param(target_link=dst, source_link=src)
        else:
            synchronize_parameters(src=src, dst=dst, method="hard")
        obs.require(same(snap(dst), s0), "the target differs from the source after copying")
        obs.require(same(snap(src), s0), "copying changed the source")
        obs.require(ptrs(dst) == d_ptr and [id(x) for x in dst.parameters()] == pid, "copying replaced the target's storage")
        obs.require(grads(src) == gs and grads(dst) == gd, "copying parameters changed gradients")
        if p["arch"] == "norm":
            obs.require(np.array_equal(outputs_norm(src, rng), outputs_norm(dst, rng)), "outputs differ after copying")
        if p["share"]:
            obs.require(all(v.is_shared() for v in dst.state_dict().values()), "shared memory lost")
        s1 = snap(dst)
        fill(src, rng)
        obs.require(same(snap(dst), s1), "the target follows later changes of the source")
        obs.n("tensors", len(s0))
    obs.sig("copy", p["arch"], p["via"], p["share"])


def check_soft(p, obs):
    from pfrl.utils.copy_param import soft_copy_param, synchronize_parameters

    rng, src, dst = setup(p)
    tau = p["tau"]
    for r in range(p["rounds"]):
        fill(src, rng)
        if p["arch"] == "norm":
            outputs_norm(src, rng), outputs_norm(dst, rng)
        s0, t0, d_ptr, pid = snap(src), snap(dst), ptrs(dst), [id(x) for x in dst.parameters()]
        gs, gd = grads(src), grads(dst)
        if p["via"] == "fn":
            soft_copy_param(target_link=dst, source_link=src, tau=tau)
        else:
            synchronize_parameters(src=src, dst=dst, method="soft", tau=tau)
        t1 = snap(dst)
        for k in t0:
            a, b, c = t0[k][2], s0[k][2], t1[k][2]
            if a.dtype.kind == "f":
                want = (1 - tau) * a.astype(np.float64) + tau * b.astype(np.float64)
                u = {2: 4e-3, 4: 4e-7, 8: 1e-14}[a.dtype.itemsize]
                tol = u * (np.abs(a.astype(np.float64)) + np.abs(b)) + (1e-7 if a.dtype.itemsize == 2 else 1e-30)
                obs.require(c.dtype == a.dtype and c.shape == a.shape and bool(np.all(np.abs(c - want) <= tol)),
                            lambda: "%s with tau=%s: %s instead of %s" % (k, tau, c.ravel()[:4], want.ravel()[:4]))
            else:
                obs.require(np.array_equal(c, b), lambda: "%s was not copied: %s instead of %s" % (k, c, b))
        obs.require(same(snap(src), s0), "soft copying changed the source")
        obs.require(ptrs(dst) == d_ptr and [id(x) for x in dst.parameters()] == pid, "soft copying replaced the target's storage")
        obs.require(grads(src) == gs and grads(dst) == gd, "soft copying parameters changed gradients")
        if p["arch"] == "norm":
            m, v = dst[0].mean.numpy().astype(np.float64), dst[0].std.numpy().astype(np.float64) ** 2
            x = np.random.RandomState(5).randn(3, 4)
            obs.require(np.allclose(outputs_norm(dst, rng), (x - m) / np.sqrt(v + 1e-2), rtol=1e-3, atol=1e-4), "the target does not use its new statistics")
        if p["share"]:
            obs.require(all(v.is_shared() for v in dst.state_dict().values()), "shared memory lost")
        fill(src, rng)
        obs.require(same(snap(dst), t1), "the target follows later changes of the source")
        obs.n("tensors", len(s0))
    obs.sig("soft", p["arch"], tau, p["via"], p["share"])


def check_grad(p, obs):
    from pfrl.utils.copy_param import copy_grad

    rng, src, dst = setup(p)
    for r in range(p["rounds"]):
        for x in src.parameters():
            x.grad = None if not x.requires_grad or rng.rand() < 0.3 else torch.as_tensor(rng.randn(*x.shape) * rng.choice([0, 1e-6, 1, 1e6])).to(x.dtype)
        s0, t0, gs = snap(src), snap(dst), grads(src)
        copy_grad(target_link=dst, source_link=src)
        obs.require(grads(dst) == gs, "a gradient was not transferred to its own parameter")
        obs.require(grads(src) == gs and same(snap(src), s0) and same(snap(dst), t0), "transferring gradients changed something else")
        for x in src.parameters():
            if x.grad is not None:
                x.grad.add_(1)
        obs.require(grads(dst) == gs, "the target's gradients follow later changes of the source's")
        obs.n("tensors", len(gs))
    obs.sig("grad", p["arch"], p["share"])


def gen_clip(rng, tier):
    return dict(n=int(rng.choice([0, 1, 2, 6])), thr=float(rng.choice([1e-3, 0.5, 1.0, 10.0, 40.0])), scale=float(rng.choice([1e-12, 1e-4, 0.1, 1, 1, 100, 1e8])),
                form=str(rng.choice(["list", "gen", "tensor", "module"])), none=float(rng.choice([0, 0.3, 1])), zero=float(rng.choice([0, 0.3])),
                f64=bool(rng.rand() < 0.3), prog=int(rng.randint(2**31)))


def check_clip(p, obs):
    from pfrl.utils import clip_l2_grad_norm_

    rng = np.random.RandomState(p["prog"])
    for rep in range(20):
        ps = []
        for i in range(p["n"] if p["form"] != "tensor" else 1):
            sh = [(), (3,), (2, 4), (2, 3, 2, 2), (1,)][rng.randint(5)]
            x = nn.Parameter(torch.zeros(sh, dtype=torch.float64 if p["f64"] else torch.float32))
            if rng.rand() >= p["none"]:
                g = rng.randn(*sh) * p["scale"] * (0 if rng.rand() < p["zero"] else 1)
                x.grad = torch.as_tensor(np.asarray(g)).to(x.dtype)
            ps.append(x)
        before = [None if x.grad is None else x.grad.numpy().astype(np.float64) for x in ps]
        raw = [None if x.grad is None else x.grad.numpy().tobytes() for x in ps]
        ids = [id(x.grad) for x in ps]
        thr = p["thr"] if rng.rand() < 0.7 else int(np.ceil(p["thr"]))
        arg = {"list": list(ps), "gen": (x for x in ps), "tensor": ps[0] if ps else None, "module": None}[p["form"]]
        if p["form"] == "module":
            m = nn.Module()
            for i, x in enumerate(ps):
                m.register_parameter("p%d" % i, x)
            arg = m.parameters()
        ret = float(clip_l2_grad_norm_(arg, thr))
        norm = float(np.sqrt(sum((b**2).sum() for b in before if b is not None)))
        obs.require(abs(ret - norm) <= 1e-5 * norm, lambda: "returned norm %s, true norm %s" % (ret, norm))
        after = [None if x.grad is None else x.grad.numpy().astype(np.float64) for x in ps]
        obs.require([a is None for a in after] == [b is None for b in before] and [id(x.grad) for x in ps] == ids, "gradients appeared, disappeared or were replaced")
        n2 = float(np.sqrt(sum((b**2).sum() for b in after if b is not None)))
        obs.require(n2 <= thr * (1 + 1e-5), lambda: "norm %s after clipping to %s" % (n2, thr))
        if norm <= thr * (1 - 1e-5) - 1e-6:
            obs.require([None if x.grad is None else x.grad.numpy().tobytes() for x in ps] == raw, "gradients within the threshold were changed")
        elif norm > thr:
            f = thr / norm
            obs.require(all(b is None or np.all(np.abs(a - f * b) <= (2e-6 + 2e-6 / norm) * np.abs(f * b) + 1e-30) for a, b in zip(after, before)),
                        lambda: "clipped gradients are not the gradients scaled by %s" % f)
        obs.n("sets")
        obs.sig("clip", p["n"], p["form"], thr, p["scale"], norm > thr)


def gen_opt(rng, tier):
    cen = bool(rng.rand() < 0.3)
    wd = float(rng.choice([0, 0, 0.01, 0.5]))
    # centred: the variance is a difference, avoid settings that only measure its cancellation
    return dict(lr=float(rng.choice([1e-4, 1e-2, 1.0])), alpha=float(rng.choice([0.9, 0.99, 0.999] if cen else [0.0, 0.9, 0.99, 0.999])),
                eps=float(rng.choice([1e-2, 0.1, 1.0] if cen or wd else [1e-8, 1e-2, 0.1, 1.0])),
                wd=wd, mom=float(rng.choice([0, 0, 0.9])), cen=cen, shared=bool(rng.rand() < 0.5),
                groups=int(rng.choice([1, 2])), prog=int(rng.randint(2**31)))


def check_opt(p, obs):
    import warnings
    import pfrl

    warnings.simplefilter("ignore")
    rng = np.random.RandomState(p["prog"])
    cls = pfrl.optimizers.SharedRMSpropEpsInsideSqrt if p["shared"] else pfrl.optimizers.RMSpropEpsInsideSqrt
    ps = [nn.Parameter(torch.as_tensor(rng.randn(*s).astype(np.float64 if rng.rand() < 0.3 else np.float32))) for s in [(3,), (2, 3), (1,), (4,)]]
    kw = dict(alpha=p["alpha"], eps=p["eps"], weight_decay=p["wd"], momentum=p["mom"], centered=p["cen"])
    if p["groups"] == 1:
        opt = cls(ps, lr=p["lr"], **kw)
        lrs = [p["lr"]] * 4
    else:
        opt = cls([dict(params=ps[:2], lr=p["lr"] * 3), dict(params=ps[2:])], lr=p["lr"], **kw)
        lrs = [p["lr"] * 3] * 2 + [p["lr"]] * 2
    if p["shared"]:
        for x in ps:
            obs.require("square_avg" in opt.state[x] and ((p["mom"] == 0) or "momentum_buffer" in opt.state[x]), "state of the shared optimizer is missing before the first step")
            for v in opt.state[x].values():
                if torch.is_tensor(v):
                    v.share_memory_()
    ref = [dict(x=x.detach().numpy().astype(np.float64), s=np.zeros(tuple(x.shape)), g=np.zeros(tuple(x.shape)), m=np.zeros(tuple(x.shape))) for x in ps]
    for t in range(12):
        for x, r, lr in zip(ps, ref, lrs):
            if rng.rand() < 0.2:
                x.grad = None
                continue
            g = (rng.randn(*x.shape) * rng.choice([0, 1e-3, 1, 10])).astype(np.float32)
            x.grad = torch.as_tensor(g).to(x.dtype)
            g = x.grad.numpy().astype(np.float64) + p["wd"] * r["x"]
            r["s"] = p["alpha"] * r["s"] + (1 - p["alpha"]) * g * g
            v = r["s"]
            if p["cen"]:
                r["g"] = p["alpha"] * r["g"] + (1 - p["alpha"]) * g
                v = v - r["g"] ** 2
            r["v"] = v
            r["den"] = np.sqrt(np.maximum(v, 0) + p["eps"])
            if p["mom"]:
                r["m"] = p["mom"] * r["m"] + g / r["den"]
                d = r["m"]
            else:
                d = g / r["den"]
            r["x"] = r["x"] - lr * d
            r["upd"] = r.get("upd", 0) + lr * np.abs(d)
        g0 = [None if x.grad is None else x.grad.numpy().tobytes() for x in ps]
        if rng.rand() < 0.2:
            lossv = opt.step(lambda: torch.tensor(3.5))
            obs.require(float(lossv) == 3.5, "step(closure) does not return the loss")
        else:
            opt.step()
        obs.require([None if x.grad is None else x.grad.numpy().tobytes() for x in ps] == g0, "the step changed the gradients")
        tol = 2e-3 if p["cen"] else 1e-4
        for x, r in zip(ps, ref):
            got = x.detach().numpy().astype(np.float64)
            obs.require(bool(np.all(np.abs(got - r["x"]) <= tol * (np.abs(r["x"]) * 0.01 + r.get("upd", 0)) + 2e-6 * (np.abs(r["x"]) + 1e-3))),
                        lambda: "%s step %d: parameter %s instead of %s" % (p, t, got.ravel()[:4], r["x"].ravel()[:4]))
        if p["shared"]:
            obs.require(all(v.is_shared() for x in ps for v in opt.state[x].values() if torch.is_tensor(v)), "optimizer state left shared memory")
        if rng.rand() < 0.15 and not p["shared"]:
            sd = copy.deepcopy(opt.state_dict())
            opt = cls(ps, lr=123.0, eps=5.0) if p["groups"] == 1 else cls([dict(params=ps[:2]), dict(params=ps[2:])], lr=9.0)
            opt.load_state_dict(sd)
        obs.n("steps")
    obs.sig("optim", p["alpha"], p["eps"], p["wd"], p["mom"], p["cen"], p["shared"], p["groups"])


def gen_shared(rng, tier):
    return dict(arch=str(rng.choice(["mlp", "bn", "tied", "lstm", "norm"])), procs=int(rng.choice([1, 2, 3])), opt=str(rng.choice(["shared_rmsprop", "sgd"])), prog=int(rng.randint(2**31)))


def check_shared(p, obs):
    """Workers, one after the other, push gradients into a shared model."""
    import pfrl
    from pfrl.utils.copy_param import copy_grad, copy_param

    rng = np.random.RandomState(p["prog"])
    shared = build(p["arch"], rng)
    if p["opt"] == "sgd":
        opt = torch.optim.SGD(shared.parameters(), lr=0.1)
    else:
        opt = pfrl.optimizers.SharedRMSpropEpsInsideSqrt(shared.parameters(), lr=0.05, eps=0.1)
    for v in shared.state_dict().values():
        v.share_memory_()
    for st in opt.state_dict()["state"].values():
        for v in st.values():
            if torch.is_tensor(v):
                v.share_memory_()
    twin = copy.deepcopy(shared)
    topt = type(opt)(twin.parameters(), **{k: v for k, v in opt.param_groups[0].items() if k in (("lr",) if p["opt"] == "sgd" else ("lr", "eps", "alpha"))})

    def work(shared, opt, seed):
        r = np.random.RandomState(seed)
        local = copy.deepcopy(shared)
        fill(local, r)
        copy_param(local, shared)
        for x in local.parameters():
            x.grad = torch.as_tensor(r.randn(*x.shape).astype(np.float32))
        copy_grad(shared, local)
        opt.step()
        return local

    for w in range(p["procs"]):
        pid = os.fork()
        if pid == 0:
            try:
                work(shared, opt, p["prog"] % 1000 + w)
                os._exit(0)
            except BaseException:
                os._exit(3)
        _, st = os.waitpid(pid, 0)
        obs.require(st == 0, "worker failed with status %s" % st)
        work(twin, topt, p["prog"] % 1000 + w)
        obs.require(same(snap(shared), snap(twin)), "the update of another process did not reach the shared parameters")
        if p["opt"] != "sgd":
            for a, b in zip(shared.parameters(), twin.parameters()):
                obs.require(torch.equal(opt.state[a]["square_avg"], topt.state[b]["square_avg"]), "optimizer statistics of another process are not shared")
        obs.n("worker_updates")
    obs.sig("shared", p["arch"], p["procs"], p["opt"])


KINDS = [
    Kind("copy", gen_arch, check_copy, 400, 2000),
    Kind("soft", gen_arch, check_soft, 500, 4000),
    Kind("grad", gen_arch, check_grad, 400, 2000),
    Kind("clip", gen_clip, check_clip, 600, 5000),
    Kind("optim", gen_opt, check_opt, 500, 5000),
    Kind("shared", gen_shared, check_shared, 40, 400),
]
