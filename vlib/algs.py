"""random algorithm definitions as plain data ("specs") and their construction from the bundled building blocks

spec: {"cls": dotted name, "params": {name: value}}; a value is a literal, {"ref": variable}, {"obj": spec} or {"objs": [spec]}
"""
import importlib

C = "causy.causal_discovery.constraint."
STEPS = {
    "calc": "causy.common_pipeline_steps.calculation.CalculatePearsonCorrelations",
    "corr": C + "independence_tests.common.CorrelationCoefficientTest",
    "partial": C + "independence_tests.common.PartialCorrelationTest",
    "ext": C + "independence_tests.common.ExtendedPartialCorrelationTestMatrix",
    "extreg": C + "independence_tests.common.ExtendedPartialCorrelationTestLinearRegression",
    "collider": C + "orientation_rules.pc.ColliderTest",
    "noncollider": C + "orientation_rules.pc.NonColliderTest",
    "triple": C + "orientation_rules.pc.FurtherOrientTripleTest",
    "quad": C + "orientation_rules.pc.OrientQuadrupleTest",
    "fquad": C + "orientation_rules.pc.FurtherOrientQuadrupleTest",
    "effects": "causy.causal_effect_estimation.multivariate_regression.ComputeDirectEffectsInDAGsMultivariateRegression",
}
LOOP = "causy.common_pipeline_steps.logic.Loop"
TOGETHER = "causy.common_pipeline_steps.logic.ApplyActionsTogether"
EXIT = "causy.common_pipeline_steps.exit_conditions.ExitOnNoActions"
G = "causy.generators."
CS = "causy.models.ComparisonSettings"


def cls(name):
    m, c = name.rsplit(".", 1)
    return getattr(importlib.import_module(m), c)


def build(spec):
    kw = {}
    for k, v in spec["params"].items():
        kw[k] = value(v)
    return cls(spec["cls"])(**kw)


def value(v):
    from causy.variables import VariableReference

    if isinstance(v, dict):
        if "ref" in v:
            return VariableReference(name=v["ref"])
        if "obj" in v:
            return build(v["obj"])
        if "objs" in v:
            return [build(x) for x in v["objs"]]
    return v


VARS = {"float": "FloatVariable", "integer": "IntegerVariable", "bool": "BoolVariable", "string": "StringVariable"}


class Gen:
    def __init__(self, rng, runnable=False, refs=True):
        self.rng = rng
        self.runnable = runnable
        self.refs = refs
        self.vars = []  # {"type", "name", "value", "choices"}

    def lit(self, typ, role=None):
        r = self.rng
        if typ == "float":
            return r.choice([0.001, 0.01, 0.05, 0.1, 0.2, 0.5, 1e-07, 0.123456789])
        if typ == "integer":
            return r.choice([1, 2, 3, 5, 10, 100, 5000])
        if typ == "bool":
            return r.choice([True, False])
        return r.choice(["Correlation Test", "x", "ä ö", "1", "true", "null", "a: b", "  pad ", "é\n", "KEEP_FIRST", "0.5", "#h"])

    def param(self, typ, lits=None, p_ref=0.35):
        if self.refs and self.rng.random() < p_ref:
            same = [v for v in self.vars if v["type"] == typ and (lits is None or v.get("lits") == lits)]
            if same and self.rng.random() < 0.6:
                return {"ref": self.rng.choice(same)["name"]}
            v = {"type": typ, "name": f"{self.rng.choice(['threshold', 'v', 'Param', 'x y', 'ü'])}_{len(self.vars)}", "value": self.rng.choice(lits) if lits else self.lit(typ), "lits": lits, "choices": None}
            if self.rng.random() < 0.3:
                v["choices"] = [v["value"]] + [x for x in (lits or [self.lit(typ) for _ in range(3)]) if x != v["value"]]
            self.vars.append(v)
            return {"ref": v["name"]}
        return self.rng.choice(lits) if lits else self.lit(typ)

    def comparison(self, lo, hi):
        r = self.rng
        mn = r.randint(lo, hi)
        mx = r.choice([0, r.randint(mn, hi + 1)])
        return {"obj": {"cls": CS, "params": {"min": self.param("integer", [mn], 0.2), "max": self.param("integer", [mx], 0.2)}}}

    def generator(self, kind=None, depth=0):
        r = self.rng
        kind = kind or r.choice(["all", "edges", "neigh", "sample"])
        if kind == "all":
            return {"obj": {"cls": G + "AllCombinationsGenerator", "params": {"comparison_settings": self.comparison(2, 3)}}}
        if kind == "edges":
            p = {}
            if r.random() < 0.7:
                p["chunked"] = self.param("bool", p_ref=0.2)
            if r.random() < 0.7:
                p["chunk_size"] = self.param("integer", p_ref=0.2)
            return {"obj": {"cls": G + "PairsWithEdgesInBetweenGenerator", "params": p}}
        if kind == "neigh":
            p = {"comparison_settings": self.comparison(2, 4)}
            if r.random() < 0.7:
                p["chunked"] = self.param("bool", p_ref=0.2)
            if r.random() < 0.7:
                p["shuffle_combinations"] = self.param("bool", p_ref=0.2)
            return {"obj": {"cls": G + "PairsWithNeighboursGenerator", "params": p}}
        return {
            "obj": {
                "cls": G + "RandomSampleGenerator",
                "params": {"every_nth": self.param("integer"), "generator": self.generator(r.choice(["all", "edges", "neigh"]), 1), **({"chunked": self.param("bool", p_ref=0.2)} if r.random() < 0.5 else {})},
            }
        }

    def step(self, kind):
        r = self.rng
        p = {}
        if r.random() < 0.8:
            p["threshold"] = self.param("float")
        if r.random() < 0.5:
            p["display_name"] = self.param("string", p_ref=0.2)
        if r.random() < 0.5:
            p["chunk_size_parallel_processing"] = self.param("integer", p_ref=0.3)
        if self.runnable:
            p["parallel"] = self.param("bool", [False], 0.1)
            if kind == "partial":
                p["generator"] = {"obj": {"cls": G + "AllCombinationsGenerator", "params": {"comparison_settings": {"obj": {"cls": CS, "params": {"min": self.param("integer", [3], 0.3), "max": self.param("integer", [3], 0.3)}}}}}}
            if kind in ("ext", "extreg") and r.random() < 0.8:
                q = {"comparison_settings": {"obj": {"cls": CS, "params": {"min": self.param("integer", [r.randint(3, 4)], 0.3), "max": self.param("integer", [r.choice([0, 4, 5])], 0.3)}}}, "shuffle_combinations": self.param("bool", [False], 0.2), "chunked": self.param("bool", p_ref=0.2)}
                p["generator"] = {"obj": {"cls": G + "PairsWithNeighboursGenerator", "params": q}}
            if kind in ("corr", "partial") and r.random() < 0.4:
                p["apply_synchronous"] = self.param("bool", p_ref=0.3)
        else:
            p["parallel"] = self.param("bool", [False, True], 0.2)
            if r.random() < 0.6:
                p["generator"] = self.generator()
            if r.random() < 0.3:
                p["apply_synchronous"] = self.param("bool", p_ref=0.3)
            if r.random() < 0.2:
                p["needs_unapplied_actions"] = self.param("bool", p_ref=0.3)
        if kind == "collider" and r.random() < 0.7:
            p["conflict_resolution_strategy"] = self.param("string", ["KEEP_FIRST", "KEEP_LAST"], 0.4)
        return {"cls": STEPS[kind], "params": p}

    def steps(self, depth=0):
        r = self.rng
        if self.runnable:
            tests = [self.step("corr")] + [self.step(k) for k in r.sample(["partial", "ext", "extreg"], r.randint(0, 2))]
            out = [self.step("calc")]
            if r.random() < 0.4:
                out.append({"cls": TOGETHER, "params": {"pipeline_steps": {"objs": tests}, **self.disp()}})
            else:
                out += tests
            out.append(self.step("collider"))
            rules = [self.step(k) for k in r.sample(["noncollider", "triple", "quad", "fquad"], r.randint(1, 4))]
            out.append({"cls": LOOP, "params": {"pipeline_steps": {"objs": rules}, "exit_condition": {"obj": {"cls": EXIT, "params": {}}}, **self.disp()}})
            if r.random() < 0.6:
                out.append(self.step("effects"))
            return out
        out = []
        for _ in range(r.randint(1, 4)):
            q = r.random()
            if q < 0.65 or depth >= 2:
                out.append(self.step(r.choice(list(STEPS))))
            elif q < 0.85:
                out.append({"cls": LOOP, "params": {"pipeline_steps": {"objs": self.steps(depth + 1)}, "exit_condition": {"obj": {"cls": EXIT, "params": {}}}, **self.disp()}})
            else:
                out.append({"cls": TOGETHER, "params": {"pipeline_steps": {"objs": self.steps(depth + 1)}, **self.disp()}})
        return out

    def disp(self):
        return {"display_name": self.param("string", p_ref=0.2)} if self.rng.random() < 0.4 else {}

    def algorithm(self):
        r = self.rng
        a = {"name": r.choice(["alg", "PC", "x: y", "é", "1", "null"]), "steps": self.steps(), "edge_types": ["DIRECTED", "UNDIRECTED"] + (["BIDIRECTED"] if r.random() < 0.4 else [])}
        if r.random() < 0.4:
            a["ui"] = {"color": r.choice(["#fff", "red", None]), "width": r.choice([1, 3]), "value": r.choice([0.0, 0.5]), "edge": r.choice(["DIRECTED", "UNDIRECTED"]), "comparison": r.choice(["EQUAL", "GREATER", "LESS"])}
        for _ in range(r.choice([0, 0, 1])):
            t = r.choice(list(VARS))
            self.vars.append({"type": t, "name": f"unused_{len(self.vars)}", "value": self.lit(t), "lits": None, "choices": None})
        a["variables"] = self.vars
        return a


def build_algorithm(a):
    from causy.contrib.graph_ui import ConditionalEdgeUIConfig, ConditionalEdgeUIConfigComparison, EdgeTypeConfig, EdgeUIConfig, GraphUIExtension
    from causy.edge_types import EDGE_TYPES
    from causy.models import Algorithm

    ext = None
    if a.get("ui"):
        u = a["ui"]
        ext = [
            GraphUIExtension(
                edges=[
                    EdgeTypeConfig(
                        edge_type=u["edge"],
                        default_ui_config=EdgeUIConfig(color=u["color"], width=u["width"], label="l"),
                        conditional_ui_configs=[ConditionalEdgeUIConfig(ui_config=EdgeUIConfig(color="blue"), condition_field="correlation", condition_value=u["value"], condition_comparison=ConditionalEdgeUIConfigComparison[u["comparison"]])],
                    )
                ]
            )
        ]
    return Algorithm(
        name=a["name"],
        pipeline_steps=[build(s) for s in a["steps"]],
        edge_types=[EDGE_TYPES[t]() for t in a["edge_types"]],
        extensions=ext,
        variables=[cls("causy.variables." + VARS[v["type"]])(name=v["name"], value=v["value"], **({"choices": v["choices"]} if v["choices"] else {})) for v in a["variables"]],
    )


def leaves(a):
    """[(path, container, key, kind)] of everything in the definition that can be changed"""
    out = []

    def walk_spec(s, path):
        for k, v in s["params"].items():
            if isinstance(v, dict) and "obj" in v:
                walk_spec(v["obj"], path + [k])
            elif isinstance(v, dict) and "objs" in v:
                for i, x in enumerate(v["objs"]):
                    walk_spec(x, path + [k, i])
            else:
                out.append((path + [k], s["params"], k))

    for i, s in enumerate(a["steps"]):
        walk_spec(s, ["steps", i])
    return out


def resolved(dump, values):
    """the dump of a definition with every variable reference replaced by its value"""
    if isinstance(dump, dict):
        if set(dump) == {"name", "type"} and dump["type"] == "reference":
            return values[dump["name"]]
        return {k: resolved(v, values) for k, v in dump.items()}
    if isinstance(dump, list):
        return [resolved(v, values) for v in dump]
    return dump


def spec_params(a):
    """(path, class, params) of every object of the definition, in construction order"""
    def walk(s, path):
        yield path, s
        for k, v in s["params"].items():
            if isinstance(v, dict) and "obj" in v:
                yield from walk(v["obj"], path + [k])
            elif isinstance(v, dict) and "objs" in v:
                for i, x in enumerate(v["objs"]):
                    yield from walk(x, path + [k, i])

    for i, s in enumerate(a["steps"]):
        yield from walk(s, [i])


def at(steps, path):
    o = steps[path[0]]
    for p in path[1:]:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    return o
