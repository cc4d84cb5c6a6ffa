"""Mutation testing of the checks: mutate.py OUT [--per-file N] [--seed S] [--slots K] [files...]

Generates syntactic mutants of pfrl in scratch copies, runs the checks mapped to the file
and lists the mutants no check reported. Not used by any check.
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ("pfrl/replay_buffer.py", "C03 C01 C02 C10 C11 C08 C04"),
    ("pfrl/replay_buffers/replay_buffer.py", "C01 C07 C03"),
    ("pfrl/replay_buffers/episodic.py", "C02 C07 C03"),
    ("pfrl/replay_buffers/prioritized.py", "C04 C07 C01"),
    ("pfrl/replay_buffers/prioritized_episodic.py", "C04 C02 C07"),
    ("pfrl/replay_buffers/persistent.py", "C06 C02 C01"),
    ("pfrl/collections/random_access_queue.py", "C05 C03"),
    ("pfrl/collections/persistent_collections.py", "C06 C05"),
    ("pfrl/collections/prioritized.py", "C04 C05 C07"),
    ("pfrl/agents/dqn.py", "C10 C08 C09 C14 C15 C16 C23 C34"),
    ("pfrl/agents/state_q_function_actor.py", "C23 C14"),
    ("pfrl/agents/ddpg.py", "C11 C09 C08 C14 C16 C34"),
    ("pfrl/agents/td3.py", "C11 C09 C08 C14 C16 C34"),
    ("pfrl/agents/soft_actor_critic.py", "C11 C09 C08 C14 C16 C34"),
    ("pfrl/agents/a2c.py", "C12 C14 C16 C17 C18 C34"),
    ("pfrl/agents/a3c.py", "C12 C14 C16 C19 C34"),
    ("pfrl/agents/acer.py", "C30 C14 C16 C15 C19 C34"),
    ("pfrl/agents/ppo.py", "C12 C13 C14 C15 C16 C34"),
    ("pfrl/agents/trpo.py", "C12 C13 C14 C15 C16 C34"),
    ("pfrl/agents/reinforce.py", "C12 C14 C16 C34"),
    ("pfrl/agents/", "C10 C14 C16 C09"),
    ("pfrl/agent.py", "C14 C16 C08"),
    ("pfrl/experiments/train_agent.py", "C17"),
    ("pfrl/experiments/train_agent_batch.py", "C18"),
    ("pfrl/experiments/train_agent_async.py", "C19 C23 C28"),
    ("pfrl/experiments/evaluator.py", "C20 C19 C17 C18"),
    ("pfrl/experiments/prepare_output_dir.py", "C29"),
    ("pfrl/experiments/", "C17 C18 C29 C32"),
    ("pfrl/envs/", "C21 C28"),
    ("pfrl/wrappers/", "C22 C21"),
    ("pfrl/explorers/", "C24"),
    ("pfrl/explorer.py", "C24"),
    ("pfrl/action_value.py", "C25"),
    ("pfrl/q_functions/", "C25 C10"),
    ("pfrl/q_function.py", "C25"),
    ("pfrl/functions/", "C25 C31"),
    ("pfrl/nn/empirical_normalization.py", "C26"),
    ("pfrl/nn/recurrent", "C15"),
    ("pfrl/nn/", "C31 C15 C25"),
    ("pfrl/policies/", "C31 C11 C12"),
    ("pfrl/initializers/", "C31"),
    ("pfrl/distributions/", "C31 C11"),
    ("pfrl/optimizers/", "C27"),
    ("pfrl/utils/copy_param.py", "C27"),
    ("pfrl/utils/clip", "C27"),
    ("pfrl/utils/random.py", "C03 C28"),
    ("pfrl/utils/random_seed.py", "C28"),
    ("pfrl/utils/recurrent.py", "C15"),
    ("pfrl/utils/conjugate_gradient.py", "C12 C13"),
    ("pfrl/utils/async_.py", "C19"),
    ("pfrl/utils/stoppable_thread.py", "C23"),
    ("pfrl/utils/mode_of_distribution.py", "C31 C14"),
    ("pfrl/utils/contexts.py", "C32 C14"),
    ("pfrl/utils/pretrained_models.py", "C33"),
    ("pfrl/utils/", "C32 C22 C14"),
]
SKIP = ("pfrl/testing.py", "__init__.py")


def checks_for(f):
    for k, v in MAP:
        if f.startswith(k):
            return [c for c in v.split() if os.path.exists(os.path.join(ROOT, "checks", c.lower() + ".py"))]
    return []


class M(ast.NodeTransformer):
    """Applies the k-th possible mutation."""

    def __init__(self, k):
        self.k, self.n, self.done = k, 0, None

    def hit(self, what, node):
        self.n += 1
        if self.n - 1 == self.k:
            self.done = "%d: %s" % (getattr(node, "lineno", 0), what)
            return True
        return False

    CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}

    def visit_FunctionDef(self, n):
        n.decorator_list = n.decorator_list
        n.body = [self.visit(s) for s in n.body]
        n.args.defaults = [d for d in n.args.defaults]
        return n

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return n
        if isinstance(n.value, ast.Call):
            if self.hit("delete call " + ast.unparse(n)[:60], n):
                return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)

    def visit_Assert(self, n):
        return n

    def visit_Raise(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Attribute) and not isinstance(n.value, ast.Constant):
            pass
        return self.generic_visit(n)

    def visit_AugAssign(self, n):
        if self.hit("delete " + ast.unparse(n)[:60], n):
            return ast.copy_location(ast.Pass(), n)
        if type(n.op) in self.BIN and self.hit("augop " + ast.unparse(n)[:60], n):
            n.op = self.BIN[type(n.op)]()
            return n
        return self.generic_visit(n)

    def visit_If(self, n):
        if self.hit("if True: " + ast.unparse(n.test)[:60], n):
            n.test = ast.copy_location(ast.Constant(True), n.test)
            return n
        if self.hit("if False: " + ast.unparse(n.test)[:60], n):
            n.test = ast.copy_location(ast.Constant(False), n.test)
            return n
        return self.generic_visit(n)

    def visit_With(self, n):
        t = ast.unparse(n.items[0].context_expr)
        if ("no_grad" in t or "evaluating" in t or "lock" in t) and self.hit("no with " + t[:50], n):
            return ast.copy_location(ast.If(test=ast.Constant(True), body=n.body, orelse=[]), n)
        return self.generic_visit(n)

    def visit_Compare(self, n):
        if type(n.ops[0]) in self.CMP and self.hit("cmp " + ast.unparse(n)[:60], n):
            n.ops[0] = self.CMP[type(n.ops[0])]()
            return n
        return self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in self.BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and self.hit("binop " + ast.unparse(n)[:60], n):
            n.op = self.BIN[type(n.op)]()
            return n
        return self.generic_visit(n)

    def visit_BoolOp(self, n):
        if self.hit("bool " + ast.unparse(n)[:60], n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return n
        return self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)) and self.hit("unary " + ast.unparse(n)[:60], n):
            return n.operand
        return self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            if self.hit("const %r" % n.value, n):
                return ast.copy_location(ast.Constant(not n.value), n)
        elif isinstance(n.value, (int, float)):
            if self.hit("const %r+1" % n.value, n):
                return ast.copy_location(ast.Constant(n.value + 1), n)
        return n

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("detach", "clone", "copy") and not n.args and self.hit("drop ." + f.attr + " " + ast.unparse(n)[:50], n):
            return f.value
        if isinstance(f, ast.Name) and f.id in ("min", "max") and self.hit("swap " + ast.unparse(n)[:50], n):
            f.id = "max" if f.id == "min" else "min"
            return n
        if isinstance(f, ast.Attribute) and f.attr in ("min", "max") and self.hit("swap " + ast.unparse(n)[:50], n):
            f.attr = "max" if f.attr == "min" else "min"
            return n
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and self.hit("swap args " + ast.unparse(n)[:60], n):
            n.args[0], n.args[1] = n.args[1], n.args[0]
            return n
        # keyword arguments: drop one
        for j, k in enumerate(n.keywords):
            if k.arg is not None and self.hit("drop kw %s of %s" % (k.arg, ast.unparse(f)[:40]), n):
                n.keywords = n.keywords[:j] + n.keywords[j + 1:]
                return n
        return self.generic_visit(n)


def mutants(src):
    tree = ast.parse(src)
    k = 0
    while True:
        m = M(k)
        t = m.visit(copy.deepcopy(tree))
        if m.done is None:
            return
        try:
            yield k, m.done, ast.unparse(ast.fix_missing_locations(t))
        except Exception:
            pass
        k += 1


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    per, seed, slots, files = 12, 0, 4, []
    while a:
        x = a.pop(0)
        if x == "--per-file":
            per = int(a.pop(0))
        elif x == "--seed":
            seed = int(a.pop(0))
        elif x == "--slots":
            slots = int(a.pop(0))
        else:
            files.append(x)
    R = "/repo"
    if not files:
        for d, _, fs in os.walk(R + "/pfrl"):
            files += [os.path.relpath(os.path.join(d, f), R) for f in fs if f.endswith(".py")]
    files = [f for f in sorted(files) if not f.endswith(SKIP) and checks_for(f)]
    rng = random.Random(seed)
    jobs = []
    for f in files:
        ms = list(mutants(open(os.path.join(R, f)).read()))
        size = len(ms)
        n = min(size, max(per // 3, min(per, size // 6)))
        for m in rng.sample(ms, n):
            jobs.append((f,) + m)
    rng.shuffle(jobs)
    base = "/tmp/mut%d" % os.getpid()
    q = queue.Queue()
    for s in range(slots):
        d = "%s_%d" % (base, s)
        subprocess.run(["git", "clone", "-q", R, d], check=True)
        q.put(d)
    print(len(jobs), "mutants", flush=True)

    def one(job):
        f, k, what, src = job
        d = q.get()
        try:
            p = os.path.join(d, f)
            orig = open(p).read()
            open(p, "w").write(src)
            t0 = time.time()
            res, by = "SURVIVED", None
            env = dict(os.environ, VERIF_REPO=d, VERIF_WORKERS="2", VERIF_SEED="1", VERIF_BUDGET_S="200")
            for c in checks_for(f):
                try:
                    r = subprocess.run(["bash", os.path.join(ROOT, "check.sh"), c], env=env, capture_output=True, text=True, timeout=500)
                    rc, so = r.returncode, r.stdout + r.stderr
                except subprocess.TimeoutExpired:
                    rc, so = -1, "timeout"
                if rc == 1 and "VIOLATION" in so:
                    res, by = "caught", c
                    break
                if rc != 0:
                    res, by = "error", c + ": " + so[-200:]
                    break
            open(p, "w").write(orig)
            rec = dict(file=f, k=k, what=what, res=res, by=by, wall=round(time.time() - t0, 1))
            with open(out, "a") as g:
                g.write(json.dumps(rec) + "\n")
        finally:
            q.put(d)

    try:
        with cf.ThreadPoolExecutor(slots) as ex:
            list(ex.map(one, jobs))
    finally:
        for s in range(slots):
            shutil.rmtree("%s_%d" % (base, s), ignore_errors=True)


if __name__ == "__main__":
    main()
