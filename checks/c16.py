"""C16: random histories of workspace commands against a model of the workspace."""
import copy
import json
import math
import os
import random

from vlib import pool, ws
from vlib.core import digest

PROPERTY = "C16"
LEVEL = "exploration"
TECHNIQUE = "model-based runtime checking: workspace and directory compared with a reference model after every command of random histories"
RULE = (
    "random histories of workspace commands (init, info, pipeline add/rm, dataloader add/rm, experiment add/rm/clear/update-variable, unknown names, aborted prompts, values of wrong type) on workspaces with "
    "arbitrary names and values are executed through the real command line; after every command the workspace read back and every file of the directory are compared with a reference model, types included; "
    "distinct = distinct (command, outcome, workspace state) observations"
)
ASSUMPTIONS = [
    "every command runs in a fresh process of its own in real life: modules imported from the workspace are forgotten between commands",
    "names of new entries are stored as entered or as their slug, and new names do not collide with existing entries",
    "yaml cannot represent the control character NEL, it is not used",
]
FLOORS = {
    "command": 1500, "accepted": 800, "rejected": 300, "aborted": 30, "state_compared": 1500, "directory_compared": 1500, "in_use_removal_refused": 60, "versions_deleted": 150, "near_collision_kept": 300,
    "variable_updated": 100, "variable_refused": 100, "ejected_file_loaded": 10, "skeleton_loaded": 10, "init": 30,
}
CPU_LIMIT = 120


def cases(tier, seed):
    n = 240 if tier == "quick" else 3000
    return [{"seed": seed * 1000121 + i} for i in range(n)]


VARIABLES = [
    {"name": "threshold", "type": "float", "value": 0.01},
    {"name": "f_choice", "type": "float", "value": 0.5, "choices": [0.5, 1.0, 2.5]},
    {"name": "n", "type": "integer", "value": 3},
    {"name": "n_choice", "type": "integer", "value": 1, "choices": [1, 2, 5]},
    {"name": "flag", "type": "bool", "value": False},
    {"name": "flag_choice", "type": "bool", "value": True, "choices": [True]},
    {"name": "text", "type": "string", "value": "x"},
    {"name": "text_choice", "type": "string", "value": "1", "choices": ["1", "on", "1.0"]},
]


def slug(name):
    from markdown.extensions.toc import slugify

    return slugify(name, "_")


def write_pipeline(rng, name):
    from causy.causal_discovery.constraint.independence_tests.common import CorrelationCoefficientTest
    from causy.models import Algorithm
    from causy.variables import VariableReference, deserialize_variable
    from pydantic_yaml import to_yaml_str

    a = Algorithm(
        name="custom",
        pipeline_steps=[CorrelationCoefficientTest(threshold=VariableReference(name="threshold"))],
        edge_types=[],
        extensions=[],
        variables=[deserialize_variable(dict(v)) for v in VARIABLES],
    )
    if rng.random() < 0.5:
        with open(name + ".json", "w") as f:
            json.dump(a.model_dump(), f)
        return name + ".json"
    with open(name + ".yaml", "w") as f:
        f.write(to_yaml_str(a))
    return name + ".yaml"


GOOD = {
    "float": ["0.5", "1e-3", "-2.25", "3", "0", "1e300", "0.1", "1E5", "100000000000000000000.0", "1e16"],
    "integer": ["5", "-3", "0", "123456789012345678901", "007"],
    "bool": ["true", "false", "True", "False"],
}
BAD = {
    "float": ["x", "", "nan", "inf", "-inf", "0,5", "1e999", "true", "0.5.1"],
    "integer": ["5.0", "1e3", "", "x", "true", "0x10", "nan"],
    "bool": ["maybe", "2", "", "tru", "-1", "null"],
}


def value_for(rng, v):
    """(text, verdict, value): verdict True = has to be accepted, False = has to be rejected"""
    t = v["type"]
    choices = v.get("choices")
    if t == "string":
        s = rng.choice(choices + ["2", "true", "on "]) if choices else rng.choice(ws.NASTY)
        return s, (s in choices if choices else True), s
    if rng.random() < 0.35:
        return rng.choice(BAD[t]), False, None
    if choices and rng.random() < 0.6:
        c = rng.choice(choices)
        return str(c), True, c
    s = rng.choice(GOOD[t])
    val = {"float": float, "integer": int, "bool": lambda x: x.lower() == "true"}[t](s)
    return s, (val in choices if choices else True), val


class Model:
    def __init__(self, case, rng):
        self.rng = rng
        self.n = 0
        self.token = f"q{case['seed'] % 10**9}"
        self.state = {"name": rng.choice(ws.NASTY), "author": rng.choice(ws.NASTY + [None]), "pipelines": {}, "dataloaders": {}, "experiments": {}}
        self.stamps = [rng.randint(1, 2000000000) for _ in range(2)]

    def fresh_name(self):
        """a name with a unique slug"""
        self.n += 1
        rng = self.rng
        deco = rng.choice(["{}", "My {}", "{} (1)", "{}: x", '{} "q"', "{}'s", "Ünï {}", "{}-a", "{}.b", "{} \\n", "{}_", "{}%{{}}", "  {}", "#{}", "{}日本", "{}_12"])
        return deco.format(f"{self.token}x{self.n}z")


def initial(m, rng):
    st = m.state
    f = write_pipeline(rng, f"{m.token}file")
    names = rng.sample([x for x in ws.NASTY if not x.startswith("-")], 12)
    custom = [names[0]] if rng.random() < 0.6 else ["custom"]
    for c in custom:
        st["pipelines"][c] = {"type": "file", "reference": f}
    if rng.random() < 0.7:
        st["pipelines"][names[1]] = {"type": "name", "reference": "PC"}
    if rng.random() < 0.4:
        st["pipelines"][names[2]] = {"type": "python_module", "reference": "causy.causal_discovery.constraint.algorithms.pc.PCClassic"}
    for i in range(rng.randint(1, 3)):
        opts = rng.choice([None, {}, {"a": 1, "b": 1.0, "c": True, "d": None, "e": "1", "f": [1, "yes", 2.5], "g": {"x": {"y": "null"}}}, {rng.choice(ws.NASTY): rng.choice(ws.NASTY)}])
        st["dataloaders"][names[3 + i]] = {"type": rng.choice(["json", "jsonl"]), "reference": rng.choice(["data.json"] + ws.NASTY), "options": opts}
    base = rng.choice(["exp", "a", "e.x", "a+b", "a b", "x[1]", "(a)", "q?", "a|b", "^a$", "été", "E{1}", "w*"])
    enames = [base, base + "_1", base + "_1_2", "x" + base, base + "x", base.swapcase(), base.replace(".", "x").replace("+", "b")]
    for e in dict.fromkeys(rng.sample(enames, rng.randint(1, 4)) + rng.sample([x for x in names[6:9] if x and "\n" not in x], 1)):
        p = rng.choice(list(st["pipelines"]))
        vs = {}
        if st["pipelines"][p]["type"] == "file":
            for v in VARIABLES:
                if rng.random() < 0.4:
                    vs[v["name"]] = rng.choice(v["choices"]) if "choices" in v else v["value"]
            if rng.random() < 0.3:
                vs["text"] = rng.choice(ws.NASTY)
        elif rng.random() < 0.5:
            vs["threshold"] = rng.choice([0.05, 1e-5, 1.0, 0.1])
        st["experiments"][e] = {"pipeline": p, "dataloader": rng.choice(list(st["dataloaders"])), "variables": vs}
    ws.write_workspace(copy.deepcopy(st))


def versions_of(name, files):
    pre, suf = name + "_", ".json"
    return {f for f in files if f.startswith(pre) and f.endswith(suf) and len(f) > len(pre) + len(suf) and set(f[len(pre) : -len(suf)]) <= set('0123456789')}


def drop_files(m, rng, mon):
    """stored versions and files which merely look similar"""
    for e in list(m.state["experiments"]):
        if len(e) > 100 or "/" in e:
            continue
        for _ in range(rng.randint(0, 3)):
            # experiments executed together have the same version numbers
            put(f"{e}_{rng.choice(m.stamps) if rng.random() < 0.6 else rng.randint(1, 2000000000)}.json", rng)
        for near in (f"{e}_notes.json", f"{e}_12.json.bak", f"x{e}_12.json", f"{e}_12.jsonl", f"{e}.json", f"{e}_1a.json", f"{e}_-5.json", f"{e}_1.5.json", f"{e}_12_json", f"{e}_12xjson", f"{e}12.json", f"{e}_.json"):
            if rng.random() < 0.3:
                put(near, rng)


def put(name, rng):
    if not os.path.exists(name):
        with open(name, "w") as f:
            f.write(json.dumps({"x": rng.random()}))


def algorithm_dump(ref_type, ref):
    from causy.serialization import load_algorithm_by_reference

    ws.fresh_process()
    return load_algorithm_by_reference(ref_type, ref)


def resolved_defaults(m, p):
    ref = m.state["pipelines"][p]
    a = algorithm_dump(ref["type"], ref["reference"])
    return {v.name: v.value for v in a.variables}


def step(m, rng, mon):
    """returns (args, prompts, stdin, alternatives): alternatives = list of acceptable outcomes
    (state, files to add {name: verifier}, files to remove, accepted?)"""
    st = m.state
    nothing = (copy.deepcopy(st), {}, set(), False)
    p = ws.Prompts()
    op = rng.choice(["p_add", "p_add", "p_rm", "p_rm", "d_add", "d_add", "d_rm", "d_rm", "e_add", "e_rm", "e_rm", "e_clear", "e_clear", "e_var", "e_var", "e_var", "e_var", "info", "unknown", "init"])
    if op == "info":
        return ["info"], p, None, [(copy.deepcopy(st), {}, set(), True)]
    if op == "unknown":
        x = rng.choice(["nope", st["name"] or "zzz", next(iter(st["pipelines"]), "z"), "workspace", "EXP", "custom ", "_", "1"])
        kind = rng.choice(["pipeline", "dataloader", "experiment"])
        coll = {"pipeline": "pipelines", "dataloader": "dataloaders", "experiment": "experiments"}[kind]
        x = "" if not isinstance(x, str) else x
        while x in st[coll]:
            x += "x"
        args = [kind, rng.choice(["rm", "clear"]) if kind == "experiment" else "rm", "--", x]
        if rng.random() < 0.2:
            args = ["experiment", "update-variable", "--", x if kind == "experiment" else "nope nope", "threshold", "0.5"]
        return args, p, None, [nothing]
    if op == "init":
        if rng.random() < 0.5:
            return ["init"], p, "n\n", [nothing]
        name, author = f"ws {m.token}", rng.choice(["me", "yes", "1.0", "null", "a: b"])
        ns = {"name": name, "author": author, "pipelines": {}, "dataloaders": {}, "experiments": {}}
        answers = ["y", name, author]
        adds = {}
        pk = dk = None
        alts = [ns]
        if rng.random() < 0.6:
            answers.append("y")
            pname = m.fresh_name()
            p.selects += ["PRECONFIGURED", "PC"]
            p.texts += [pname]
            pk = slug(pname)
            ns["pipelines"][pk] = {"type": "name", "reference": "PC"}
        else:
            answers.append("n")
        if rng.random() < 0.6:
            answers.append("y")
            dname = m.fresh_name()
            kind = rng.choice(["json", "jsonl", "dynamic"])
            p.selects += [kind]
            p.texts += [dname]
            dk = slug(dname)
            if kind == "dynamic":
                adds[dk + ".py"] = loader_file
                ns["dataloaders"][dk] = {"type": kind, "reference": dk + ".DataLoader", "options": None}
            else:
                path = rng.choice(ws.NASTY[1:])
                p.paths += [path]
                ns["dataloaders"][dk] = {"type": kind, "reference": path, "options": None}
        else:
            answers.append("n")
        if pk and dk:
            if rng.random() < 0.6:
                answers.append("y")
                ename = m.fresh_name()
                p.texts += [ename]
                p.selects += [pk, dk]
                ns["experiments"][slug(ename)] = {"pipeline": pk, "dataloader": dk, "variables": {"threshold": 0.005}}
                d = resolved_defaults_of("name", "PC")
                ns["experiments"][slug(ename)]["variables"] = d
            else:
                answers.append("n")
        mon.event("init")
        return ["init"], p, "\n".join(answers) + "\n", [(ns, adds, set(), True)]
    abort = rng.random() < 0.12
    if op == "p_add":
        name = m.fresh_name()
        kind = rng.choice(["PRECONFIGURED", "EJECT", "SKELETON"])
        ref = rng.choice(["PC", "PC", "ParallelPC"])
        sel = [kind] + ([ref] if kind != "SKELETON" else [])
        if abort:
            if rng.random() < 0.5:
                p.load(sel[: rng.randint(0, len(sel) - 1)], [name])
            else:
                p.load(sel, [])
            mon.event("aborted")
            return ["pipeline", "add"], p, None, [nothing]
        p.load(sel, [name])
        s = slug(name)
        adds = {}
        if kind == "PRECONFIGURED":
            entry = {"type": "name", "reference": ref}
        elif kind == "EJECT":
            entry = {"type": "file", "reference": s + ".yml"}
            adds[s + ".yml"] = lambda f, mon: ejected(f, ref, mon)
        else:
            entry = {"type": "python_module", "reference": s + ".PIPELINE"}
            adds[s + ".py"] = lambda f, mon: skeleton(s, name, mon)
        return ["pipeline", "add"], p, None, [(with_entry(st, "pipelines", k, entry), adds, set(), True) for k in dict.fromkeys([name, s])]
    if op == "d_add":
        name = m.fresh_name()
        kind = rng.choice(["json", "jsonl", "dynamic"])
        path = rng.choice([x for x in ws.NASTY if x])
        s = slug(name)
        if abort:
            r = rng.random()
            if r < 0.3:
                p.load([], [name], [path])
            elif r < 0.6 or kind == "dynamic":
                p.load([kind], [], [path])
            else:
                p.load([kind], [name], [])
            mon.event("aborted")
            return ["dataloader", "add"], p, None, [nothing]
        p.load([kind], [name], [path])
        adds = {}
        entry = {"type": kind, "reference": path, "options": None}
        if kind == "dynamic":
            entry["reference"] = s + ".DataLoader"
            adds[s + ".py"] = loader_file
        return ["dataloader", "add"], p, None, [(with_entry(st, "dataloaders", k, entry), adds, set(), True) for k in dict.fromkeys([name, s])]
    if op == "e_add":
        if not st["pipelines"] or not st["dataloaders"]:
            return ["info"], p, None, [(copy.deepcopy(st), {}, set(), True)]
        name = m.fresh_name()
        pl, dl = rng.choice(list(st["pipelines"])), rng.choice(list(st["dataloaders"]))
        if abort:
            r = rng.random()
            p.load([pl, dl] if r < 0.4 else [pl, None] if r < 0.7 else [None, dl], [] if r < 0.4 else [name])
            mon.event("aborted")
            return ["experiment", "add"], p, None, [nothing]
        # a pipeline may be named like a data loader: answer in the order of the questions
        p.load([pl, dl], [name])
        entry = {"pipeline": pl, "dataloader": dl, "variables": resolved_defaults(m, pl)}
        return ["experiment", "add"], p, None, [(with_entry(st, "experiments", k, entry), {}, set(), True) for k in dict.fromkeys([name, slug(name)])]
    if op in ("p_rm", "d_rm"):
        coll, key, kind = ("pipelines", "pipeline", "pipeline") if op == "p_rm" else ("dataloaders", "dataloader", "dataloader")
        if not st[coll]:
            return ["info"], p, None, [(copy.deepcopy(st), {}, set(), True)]
        x = rng.choice(list(st[coll]))
        if any(e[key] == x for e in st["experiments"].values()):
            mon.event("in_use_removal_refused")
            return [kind, "rm", "--", x], p, None, [nothing]
        ns = copy.deepcopy(st)
        del ns[coll][x]
        return [kind, "rm", "--", x], p, None, [(ns, {}, set(), True)]
    if not st["experiments"]:
        return ["info"], p, None, [(copy.deepcopy(st), {}, set(), True)]
    e = rng.choice(list(st["experiments"]))
    if op in ("e_rm", "e_clear"):
        gone = versions_of(e, os.listdir())
        mon.event("versions_deleted", len(gone))
        mon.event("near_collision_kept", sum(1 for f in os.listdir() if e and e in f and f not in gone))
        ns = copy.deepcopy(st)
        if op == "e_rm":
            del ns["experiments"][e]
        return ["experiment", "rm" if op == "e_rm" else "clear", "--", e], p, None, [(ns, {}, gone, True)]
    ref = st["pipelines"][st["experiments"][e]["pipeline"]]
    if ref["type"] == "file" and ref["reference"].startswith(m.token + "file") and rng.random() < 0.92:
        v = rng.choice(VARIABLES)
        text, good, val = value_for(rng, v)
        name = v["name"]
    else:
        names = {v.name: v for v in algorithm_dump(ref["type"], ref["reference"]).variables}
        if "threshold" in names and rng.random() < 0.7:
            name, (text, good, val) = "threshold", value_for(rng, VARIABLES[0])
        else:
            name, text, good, val = rng.choice(["nope", "Threshold", "threshold ", ""]), "0.5", False, None
    if good:
        ns = copy.deepcopy(st)
        ns["experiments"][e]["variables"][name] = val
        mon.event("variable_updated")
        return ["experiment", "update-variable", "--", e, name, text], p, None, [(ns, {}, set(), True)]
    mon.event("variable_refused")
    return ["experiment", "update-variable", "--", e, name, text], p, None, [nothing]


def with_entry(st, coll, key, entry):
    ns = copy.deepcopy(st)
    ns[coll][key] = entry
    return ns


def resolved_defaults_of(t, r):
    return {v.name: v.value for v in algorithm_dump(t, r).variables}


def loader_file(f, mon):
    import importlib.util

    spec = importlib.util.spec_from_file_location("generated_loader", f)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    rows = list(mod.DataLoader().load())
    if not rows or not all(isinstance(x, dict) for x in rows):
        return f"generated data loader yields {rows!r}"
    return None


def ejected(f, ref, mon):
    mon.event("ejected_file_loaded")
    got = algorithm_dump("file", f)
    want = algorithm_dump("name", ref)
    if got.model_dump() != want.model_dump():
        return f"ejected {ref} loads as something else"
    return None


def skeleton(s, name, mon):
    mon.event("skeleton_loaded")
    try:
        got = algorithm_dump("python_module", s + ".PIPELINE")
    except Exception as e:
        return f"skeleton of a pipeline named {name!r} cannot be loaded: {e!r}"
    if got.name != name:
        return f"skeleton of a pipeline named {name!r} has the name {got.name!r}"
    return None


def run_case(case, mon):
    rng = random.Random(case["seed"])
    with pool.patched(random.Random(0), (1, 1, 1)), ws.scratch("c"):
        m = Model(case, rng)
        initial(m, rng)
        d = ws.difference(ws.strict(m.state), ws.strict(ws.read_workspace()))
        if not mon.check(d is None, "initial", lambda: f"written workspace reads back differently: {d}"):
            return
        log = []
        for i in range(rng.randint(6, 14)):
            if i % 4 == 0:
                drop_files(m, rng, mon)
            before = ws.snapshot()
            args, prompts, stdin, alternatives = step(m, rng, mon)
            answers = [list(prompts.selects), list(prompts.texts), list(prompts.paths)]
            mid = ws.snapshot()
            if mid != before:
                before = mid
            r = ws.command(*args, prompts=prompts, stdin=stdin)
            log.append([args, answers, stdin])
            mon.event("command")
            desc = lambda: f"after {args} answers={answers} stdin={stdin!r} ({r!r}); history: {log[-6:]}"
            # the workspace
            try:
                got = ws.read_workspace()
            except Exception as e:
                mon.violation("unreadable", f"workspace cannot be read: {e!r} {desc()}")
                return
            sg = ws.strict(got)
            diffs = [ws.difference(ws.strict(a[0]), sg) for a in alternatives]
            mon.event("state_compared")
            ok = [a for a, x in zip(alternatives, diffs) if x is None]
            if not mon.check(bool(ok), "state", lambda: f"workspace is not the previous one with the requested change: {diffs[0]} {desc()}"):
                return
            new, adds, gone, accepted = ok[0]
            if accepted:
                mon.event("accepted")
                if not mon.check(r.ok, "failed", lambda: f"valid command failed {desc()}"):
                    return
            else:
                mon.event("rejected")
            # the directory
            after = ws.snapshot()
            want = dict(before)
            for g in gone:
                want.pop(g)
            after.pop("workspace.yml")
            ws_before = want.pop("workspace.yml")
            mon.event("directory_compared")
            missing = sorted(set(want) - set(after))
            extra = sorted(set(after) - set(want) - set(adds))
            changed = sorted(f for f in want if f in after and after[f] != want[f])
            if not mon.check(not (missing or extra or changed), "files", lambda: f"files missing={missing} extra={extra} changed={changed} {desc()}"):
                return
            for f, verify in adds.items():
                if not mon.check(f in after, "files", lambda: f"{f} was not created {desc()}"):
                    return
                try:
                    e = verify(f, mon)
                except Exception as ex:
                    e = f"{f}: {ex!r}"
                if not mon.check(not e, "generated", lambda: f"{e} {desc()}"):
                    return
            mon.evaluate(digest([args[:2], accepted, got]), True, None if rng.random() > 0.02 else {"args": args, "accepted": accepted})
            m.state = new
