"""C24: graph update hooks and edge type hooks of scripted pipelines vs. the reference engine."""
import random
from typing import Any

from vlib import pool
from vlib.core import digest
from vlib.graphs import random_names

PROPERTY = "C24"
LEVEL = "exploration"
TECHNIQUE = "trace monitor on hook invocations against the recorded actions"
RULE = (
    "scripted pipelines (immediate, chunked, collected, together, looped, parallel) with 0-3 before-hooks that pass, drop, duplicate, reorder or replace actions and 0-2 after-hooks, and with recording (optionally failing) hooks "
    "on the edge types; every hook call is logged with the graph it saw and compared with the reference engine; distinct = distinct pipelines in which hooks changed or observed at least one action"
)
ASSUMPTIONS = [
    "orienting an undirected edge is one removal action; the type change of the remaining direction is part of it",
    "restoring an edge is neither a removal nor an update",
    "the size of the batches handed to the hooks is not specified, only their concatenation",
]
FLOORS = {"pipeline": 400, "pre_hook_call": 2000, "post_hook_action": 1000, "edge_hook_call": 1000, "hook_dropped": 200, "hook_replaced": 100, "failing_hook": 100, "together": 50, "parallel_step": 30}
CPU_LIMIT = 60

LOG = []  # ("pre", hook index, in, out, snapshot) / ("post", hook index, actions, snapshot)


def hooks_for(specs, posts):
    from causy.interfaces import GraphUpdateHook

    from vlib import engine as E

    class Pre(GraphUpdateHook):
        idx: int = 0
        mode: str = "pass"
        kinds: Any = None

        def execute(self, graph, updates):
            before = [E.as_plain(u) for u in updates]
            out = list(updates)
            if self.mode == "drop":
                out = [u for u in out if u.action.name not in self.kinds]
            elif self.mode == "replace":
                out = [E.as_result(graph, ["UPDATE_EDGE_DIRECTED", u.u.id, u.v.id, -1.0, None]) if u.action.name in self.kinds else u for u in out]
            elif self.mode == "duplicate":
                out = [x for u in out for x in ((u, u) if u.action.name in self.kinds else (u,))]
            elif self.mode == "reverse":
                out = out[::-1]
            elif self.mode == "all":
                out = []
            LOG.append(("pre", self.idx, before, [E.as_plain(u) for u in out], E.snapshot(graph)))
            return out

    class Post(GraphUpdateHook):
        idx: int = 0

        def execute(self, graph, updates):
            LOG.append(("post", self.idx, [E.as_plain(u) for u in updates], None, E.snapshot(graph)))
            return None

    return [Pre(idx=i, mode=m, kinds=k) for i, (m, k) in enumerate(specs)], [Post(idx=i) for i in range(posts)]


def cases(tier, seed):
    return [{"n": 2 + i % 4, "seed": seed * 1000037 + i, "parallel": i % 6 == 5} for i in range(6000 if tier == "quick" else 25000)]


def run_case(case, mon):
    from vlib import engine as E

    rng = random.Random(case["seed"])
    names = random_names(rng, case["n"])
    pipeline = E.random_pipeline(rng, names, case["parallel"], types=("U", "D", "HU", "HD"))
    init = E.random_init(rng, names, hooked=True)
    has_parallel = any(s["mode"] == "parallel" for s in E.all_steps(pipeline))
    endless = any(i["kind"] == "loop" and i["iters"] is None for i in pipeline)
    modes = ["pass", "drop", "reverse", "duplicate", "all"] + ([] if endless else ["replace", "replace"])
    specs = [(rng.choice(modes), rng.sample(E.ALL, rng.randint(1, 5))) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    posts = rng.choice([0, 1, 2])
    changing = any(m != "pass" for m, _ in specs)
    order = sorted(names)
    E.FAIL[0] = 0
    ex = None
    if not changing:
        ex = E.simulate(pipeline, order, init)
    E.FAIL[0] = rng.choice([0, 0, 1, 2, 3])
    pre, post = hooks_for(specs, posts)
    LOG.clear()
    try:
        if has_parallel:
            with pool.patched(random.Random(case["seed"] + 1), rng.choice([(1, 1, 1), (4, 2, 1), (1, 2, 4)])):
                m = E.execute(pipeline, names, init, pre or None, post or None)
        else:
            m = E.execute(pipeline, names, init, pre or None, post or None)
    finally:
        fail, E.FAIL[0] = E.FAIL[0], 0
    mon.event("pipeline")
    if fail:
        mon.event("failing_hook", len(E.HOOKLOG) // fail)
    g = m.graph
    desc = lambda: f"hooks={specs} posts={posts} fail={fail} nodes={order} init={ {a + '>' + b: x for (a, b), x in init.items()} } pipeline={pipeline}"

    # what the steps proposed / what was taken, in order, from the recorded history
    taken = []
    for item, h in zip(pipeline, g.action_history):
        if item["kind"] == "together":
            mon.event("together")
        for s in (h.steps or []) + [h]:
            taken.append((item, [E.as_plain(a) for a in s.actions or []]))
    taken_flat = [a for _, t in taken for a in t]
    scripted = script_stream(pipeline, g.action_history, order, E, has_parallel)
    if has_parallel:
        mon.event("parallel_step", sum(s["mode"] == "parallel" for s in E.all_steps(pipeline)))

    # reference: replay the stream that came out of the hooks
    ref = E.Ref(order)
    for (a, b), x in init.items():
        ref.e[(a, b)] = list(x) + [False]
    want_hooks, want_taken = [], []
    k = len(pre)
    if k == 0:
        pass
    else:
        calls = [c for c in LOG if c[0] == "pre"]
        mon.event("pre_hook_call", len(calls))
        # hooks are called in order, each on the output of the previous one
        if not mon.check([c[1] for c in calls] == [i % k for i in range(len(calls))], "pre-order", lambda: f"call order {[c[1] for c in calls]}; {desc()}"):
            return
        for a, b in zip(calls, calls[1:]):
            if b[1] > 0 and not mon.check(b[2] == a[3], "pre-chain", lambda: f"hook {b[1]} received {b[2]} instead of {a[3]}; {desc()}"):
                return
        ins = [a for c in calls if c[1] == 0 for a in c[2]]
        if scripted is not None:
            if not mon.check(ins == scripted, "pre-input", lambda: f"hooks received {ins} but the steps proposed {scripted}; {desc()}"):
                return
        mon.event("hook_dropped", sum(max(0, len(c[2]) - len(c[3])) for c in calls))
        mon.event("hook_replaced", sum(1 for c in calls for a in c[3] if a[3] == -1.0))
    # walk through the log: states seen by the hooks
    if k or posts:
        pending = None
        post_stream = []
        for c in LOG:
            if c[0] == "pre":
                if c[1] == 0 and pending is not None:
                    buf_apply(E, ref, pending, want_hooks, want_taken)
                    pending = None
                st = E.vis(ref)
                if not mon.check(c[4] == st, "pre-state", lambda: f"before-hook {c[1]} saw {c[4]} expected {st}; {desc()}"):
                    return
                if c[1] == k - 1:
                    pending = c[3]
            else:
                if k and pending is not None:
                    buf_apply(E, ref, pending, want_hooks, want_taken)
                    pending = None
                if k:
                    st = E.vis(ref)
                    if not mon.check(c[4] == st, "post-state", lambda: f"after-hook saw {c[4]} expected {st}; {desc()}"):
                        return
                if c[1] == 0:
                    post_stream += c[2]
        if k and pending is not None:
            buf_apply(E, ref, pending, want_hooks, want_taken)
        if k:
            if not mon.check(taken_flat == want_taken, "applied", lambda: f"recorded as taken {taken_flat} but the hooks allowed {want_taken}; {desc()}"):
                return
            got = E.snapshot(g)
            if not mon.check(got == E.vis(ref), "outcome", lambda: f"final graph {got} expected {E.vis(ref)}; {desc()}"):
                return
        if posts:
            mon.event("post_hook_action", len(post_stream))
            for i in range(posts):
                ps = [a for c in LOG if c[0] == "post" and c[1] == i for a in c[2]]
                if not mon.check(ps == taken_flat, "post-input", lambda: f"after-hook {i} received {ps} but taken were {taken_flat}; {desc()}"):
                    return
    if k == 0:
        # no before-hooks: replay the recorded actions
        ref2 = E.Ref(order)
        for (a, b), x in init.items():
            ref2.e[(a, b)] = list(x) + [False]
        want_hooks = []
        for item, h in zip(pipeline, g.action_history):
            for s in (h.steps or []) + [h]:
                for a in s.actions or []:
                    E.act(ref2, E.as_plain(a), want_hooks)
            ref2.apply(("purge",))
        got = E.snapshot(g)
        if not mon.check(got == E.vis(ref2), "outcome", lambda: f"final graph {got} expected {E.vis(ref2)}; {desc()}"):
            return
        if ex is not None and not has_parallel:
            if not mon.check(got == ex.final, "outcome", lambda: f"final graph {got} expected {ex.final}; {desc()}"):
                return
            if not mon.check(E.HOOKLOG == ex.hooks, "edge-hooks", lambda: f"edge hook calls {E.HOOKLOG} expected {ex.hooks}; {desc()}"):
                return
    mon.event("edge_hook_call", len(want_hooks))
    if not mon.check(list(E.HOOKLOG) == want_hooks, "edge-hooks", lambda: f"edge hook calls {E.HOOKLOG} expected {want_hooks}; {desc()}"):
        return
    mon.evaluate(digest([pipeline, specs, posts, sorted(init)]), nontrivial=bool(taken_flat), sample={"hooks": specs, "posts": posts, "edge_hook_calls": len(want_hooks)})


def buf_apply(E, ref, acts, hooks, taken):
    for a in acts:
        if E.act(ref, a, hooks):
            taken.append(a)


def script_stream(pipeline, history, names, E, has_parallel):
    """the concatenation of everything the steps proposed, in order (None if a scheduler decided the order)"""
    if has_parallel:
        return None
    out = []
    for item, h in zip(pipeline, history):
        if item["kind"] == "loop":
            reps = len(h.steps or [])
            steps = [item["steps"][i % len(item["steps"])] for i in range(reps)]
        else:
            steps = item["steps"] if item["kind"] == "together" else [item]
        for s in steps:
            for p in E.step_pairs(s, names):
                out += s["script"].get("|".join(sorted(p))) or []
    return out
