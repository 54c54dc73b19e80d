"""C21: algorithm references stay inside the working directory and call nothing."""
import copy
import json
import os
import random
import sys
from urllib.parse import quote

from vlib import pool, ws
from vlib.core import digest

PROPERTY = "C21"
LEVEL = "exploration"
TECHNIQUE = "audit-hook monitor on every file opened and trap objects recording every call while references are resolved directly and through the API"
RULE = (
    "random directory layouts with links to files and directories inside and outside of the working directory (siblings sharing its name as prefix, parents, chains, loops), absolute and relative references; an audit hook records every file opened below the scratch root. "
    "Module references point to trap functions, classes and callables which record being called, to genuine definitions and to nonsense. The same references are sent to the API; "
    "distinct = distinct (kind of reference, layout, outcome) observations"
)
ASSUMPTIONS = ["importing the referenced module runs the module's own top-level code; that is what a module reference means", "files do not change between the check of the path and the read"]
FLOORS = {"file_reference": 1500, "inside_loaded": 250, "outside_refused": 500, "link_escape_refused": 120, "sibling_prefix_refused": 40, "module_reference": 500, "trap_not_called": 200, "genuine_loaded": 60, "api": 1500, "api_refused": 900, "api_loaded": 150, "definition_unchanged": 60}
CPU_LIMIT = 60

OPENED = []
ON = [False]


def _audit(event, args):
    if ON[0] and event == "open" and args and isinstance(args[0], (str, bytes)):
        OPENED.append(os.fsdecode(args[0]))


def cases(tier, seed):
    n = 240 if tier == "quick" else 1500
    return [{"seed": seed * 1000159 + i} for i in range(n)]


TRAPS = """
CALLS = []
def function(*a, **k):
    CALLS.append("function")
    return Trap()
class Trap:
    def __init__(self, *a, **k):
        CALLS.append("class")
    def __call__(self, *a, **k):
        CALLS.append("call")
class Meta(type):
    def __call__(cls, *a, **k):
        CALLS.append("meta")
class WithMeta(metaclass=Meta):
    pass
callable_object = Trap()
CALLS.clear()
class Fake:
    _original_algorithm = "not an algorithm"
    def __init__(self):
        CALLS.append("fake")
class Anything:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self
    def __call__(self, *a, **k):
        CALLS.append("anything")
anything = Anything()
number = 5
nothing = None
text = "causy.causal_discovery.constraint.algorithms.PC"
generator = (CALLS.append("generator") for _ in [1])
lam = lambda *a, **k: CALLS.append("lambda")
from causy.graph_model import graph_model_factory
from causy.serialization import load_algorithm_from_specification
import json
GENUINE = graph_model_factory(load_algorithm_from_specification(json.loads({!r})))
class Nested:
    PIPELINE = GENUINE
"""


def definition(rng):
    from causy.causal_discovery.constraint.independence_tests.common import CorrelationCoefficientTest, PartialCorrelationTest
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.models import Algorithm

    return Algorithm(
        name=f"alg{rng.randrange(10**9)}",
        pipeline_steps=[CalculatePearsonCorrelations(), CorrelationCoefficientTest(threshold=rng.random()), PartialCorrelationTest(threshold=rng.random())],
        edge_types=[DirectedEdge(), UndirectedEdge()],
        extensions=[],
        variables=[],
    )


def write(path, a, rng):
    from pydantic_yaml import to_yaml_str

    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(json.dumps(a.model_dump()) if rng.random() < 0.5 else to_yaml_str(a))


def layout(root, rng):
    """builds a directory tree; returns (cwd, contents: realpath -> definition)"""
    cwdname = rng.choice(["work", "w", "a.b", "wörk", "work space"])
    base = os.path.join(root, rng.choice(["base", "x/y", "deep/er/est"]))
    cwd = os.path.join(base, cwdname)
    contents = {}
    dirs_in = [cwd, cwd + "/sub", cwd + "/sub/deeper", cwd + "/.hidden"]
    dirs_out = [base, base + "/" + cwdname + "2", base + "/" + cwdname + "-backup/sub", base + "/other", root, base + "/" + cwdname[:-1] if len(cwdname) > 1 else base + "/o2"]
    for d in dirs_in + dirs_out:
        os.makedirs(d, exist_ok=True)
        for n in rng.sample(["p.yml", "q.json", "secret.yml", "r", "p..yml"], rng.randint(1, 3)):
            a = definition(rng)
            write(os.path.join(d, n), a, rng)
            contents[os.path.realpath(os.path.join(d, n))] = a.model_dump()
    with open(cwd + "/broken.yml", "w") as f:
        f.write(rng.choice(["{", "[1, 2", "a: [", "\x00", "just text", "", "- 1\n- 2", '{"pipeline_steps": 5}', '{"name": "x"}']))
    with open(cwd + "/binary.yml", "wb") as f:
        f.write(bytes(rng.randrange(256) for _ in range(60)))
    files_in = [p for p in contents if p.startswith(os.path.realpath(cwd) + os.sep)]
    files_out = [p for p in contents if p not in files_in]
    links = []
    for i in range(rng.randint(4, 10)):
        at = os.path.join(rng.choice(dirs_in), f"link{i}")
        r = rng.random()
        if r < 0.3:
            target = rng.choice(files_in)
        elif r < 0.55:
            target = rng.choice(files_out)
        elif r < 0.7:
            target = rng.choice(dirs_out)
        elif r < 0.8:
            target = rng.choice(dirs_in)
        elif r < 0.9 and links:
            target = rng.choice(links)
        else:
            target = at  # loop
        if rng.random() < 0.5:
            target = os.path.relpath(target, os.path.dirname(at))
        os.symlink(target, at)
        links.append(at)
    # links outside which lead back in
    back = base + "/back"
    os.symlink(rng.choice(files_in), back)
    links.append(back)
    return cwd, base, contents, links


def references(rng, cwd, base, contents, links):
    refs = []
    every = list(contents) + links
    for l in links:
        if os.path.isdir(l):
            every += [os.path.join(l, n) for n in os.listdir(l)][:4] + [l + "/..", l + "/../p.yml", l + "/sub/p.yml"]
    for p in every:
        rel = os.path.relpath(p, cwd)
        forms = [rel, p, "./" + rel, "sub/../" + rel, "nope/../" + rel, ".//" + rel, rel + "/", rel + "/."]
        # through a link: .. is resolved after the link
        forms += [f"{os.path.relpath(l, cwd)}/../{os.path.basename(p)}" for l in rng.sample(links, 1)]
        refs += rng.sample(forms, 2)
    refs += ["", ".", "..", "/", "~", "~/p.yml", "nope.yml", "sub", "broken.yml", "binary.yml", "\x00", "p.yml\x00", "a" * 5000, "../" * 30 + "etc/passwd", "/etc/passwd", "/dev/null", "/proc/self/environ", "file:///etc/passwd", "$HOME/x", "p.yml ", " p.yml", "P.YML", "%2e%2e/secret.yml", "..\\secret.yml"]
    return refs


def inside(ref, cwd):
    """what a reference may lead to: (realpath, the kernel agrees) or None"""
    c = os.path.realpath(cwd)
    try:
        p = os.path.realpath(ref, strict=True)
        agrees = os.path.isfile(ref) and os.path.samefile(p, ref)
    except (ValueError, OSError):
        # the path does not exist as written (nope/../x): a tolerant reading is fine as long as it stays inside
        try:
            p = os.path.realpath(os.path.realpath(ref))
            p = os.path.realpath(p, strict=True)
        except (ValueError, OSError):
            return None
        agrees = False
    return (p, agrees) if p.startswith(c + os.sep) and os.path.isfile(p) else None


def run_case(case, mon):
    from causy.causal_discovery.constraint.algorithms import AVAILABLE_ALGORITHMS
    from causy.serialization import load_algorithm_by_reference

    if not getattr(sys, "_c21_hook", False):
        sys.addaudithook(_audit)
        sys._c21_hook = True
    sys.dont_write_bytecode = True
    rng = random.Random(case["seed"])
    with pool.patched(random.Random(0), (1, 1, 1)), ws.scratch("c") as root:
        try:
            root = os.path.realpath(root)
            cwd, base, contents, links = layout(root, rng)
            if rng.random() < 0.3:
                os.symlink(cwd, root + "/entry")
                os.chdir(root + "/entry")
            else:
                os.chdir(cwd)
            bundled = {k: copy.deepcopy(v._original_algorithm.model_dump()) for k, v in AVAILABLE_ALGORITHMS.items()}
            refs = references(rng, cwd, base, contents, links)
            before = ws.snapshot(root)
            for ref in rng.sample(refs, min(len(refs), 45)):
                if not file_reference(mon, ref, cwd, root, contents, load_algorithm_by_reference):
                    return
            module_references(mon, rng, case, cwd, load_algorithm_by_reference)
            before = ws.snapshot(root)
            if not api(mon, rng, case, refs, cwd, root, contents):
                return
            mon.check(ws.snapshot(root) == before, "files-changed", "resolving references changed files")
            mon.event("definition_unchanged")
            now = {k: v._original_algorithm.model_dump() for k, v in AVAILABLE_ALGORITHMS.items()}
            mon.check(now == bundled, "bundled-changed", "the bundled definitions changed")
        finally:
            ON[0] = False


def outside_opens(cwd, root):
    bad = []
    c = os.path.realpath(cwd)
    for o in OPENED:
        try:
            p = os.path.realpath(o)
        except (ValueError, OSError):
            continue
        if p == c or p.startswith(c + os.sep):
            continue
        if p.startswith(root + os.sep) or p in ("/etc/passwd", "/proc/self/environ") or p.endswith("/environ"):
            bad.append(p)
    return bad


def file_reference(mon, ref, cwd, root, contents, load):
    mon.event("file_reference")
    real = inside(ref, cwd)
    OPENED.clear()
    ON[0] = True
    error = got = None
    try:
        got = load("file", ref)
    except Exception as e:
        error = e
    finally:
        ON[0] = False
    bad = outside_opens(cwd, root)
    desc = lambda: f"reference {ref!r} -> {os.path.realpath(ref) if chr(0) not in ref else None} from {cwd}: returned {type(got).__name__} error {error!r}"
    if not mon.check(not bad, "outside-read", lambda: f"read {bad}: {desc()}"):
        return False
    if real is None:
        mon.event("outside_refused")
        try:
            rp = os.path.realpath(ref)
            c = os.path.realpath(cwd)
            if os.path.exists(ref) and not rp.startswith(c + os.sep) and rp != c:
                if os.path.normpath(os.path.join(c, ref)).startswith(c + os.sep):
                    mon.event("link_escape_refused")
                if rp.startswith(c):
                    mon.event("sibling_prefix_refused")
        except (ValueError, OSError):
            pass
        if not mon.check(error is not None, "outside-accepted", desc):
            return False
    elif not real[1] and error is not None:
        mon.event("not_a_path_refused")
    elif real[0] in contents:
        mon.event("inside_loaded")
        if not mon.check(error is None and got.model_dump() == contents[real[0]], "inside-wrong", desc):
            return False
    else:
        if not mon.check(error is not None, "nonsense-accepted", desc):
            return False
    mon.evaluate(digest([real is not None, type(error).__name__, ref.count(".."), ref.startswith("/"), "link" in ref, os.path.islink(ref) if chr(0) not in ref else 0, len(ref) % 7]), True, {"reference": ref, "outcome": repr(error)[:100]} if len(ref) < 60 else None)
    return True


NONSENSE = ["", ".", "..", "os", "os.", ".os", "os..getcwd", "no.such.module", "os.path.", " os.getcwd", "os.getcwd ", "a b.c", "1.2", "causy", "causy.nope", "causy.causal_discovery", "os/path.x", "../x.y", "builtins", "\x00.x", "a\x00.b", "x" * 3000 + ".y", "é.ü"]
OTHERS = ["os.getcwd", "os.getpid", "json.dumps", "builtins.dict", "builtins.list", "builtins.object", "builtins.True", "builtins.None", "collections.OrderedDict", "datetime.datetime", "unittest.mock.call", "unittest.mock.MagicMock", "unittest.mock.sentinel", "causy.models.Algorithm", "causy.models.AlgorithmReference", "causy.graph_model.AbstractGraphModel", "causy.graph_model.graph_model_factory", "causy.edge_types.DirectedEdge", "causy.serialization.load_json", "causy.causal_discovery.constraint.algorithms.AVAILABLE_ALGORITHMS", "sys.modules", "sys.path", "causy.common_pipeline_steps.logic.Loop", "causy.workspaces.models.Workspace", "torch.tensor"]


def trap_module(rng, case, cwd):
    name = f"traps{case['seed'] % 10**9}"
    a = definition(rng)
    with open(os.path.join(cwd, name + ".py"), "w") as f:
        f.write(TRAPS.replace("{!r}", repr(json.dumps(a.model_dump()))))
    os.makedirs(os.path.join(cwd, name + "pkg"), exist_ok=True)
    with open(os.path.join(cwd, name + "pkg", "__init__.py"), "w") as f:
        f.write(f"from {name} import GENUINE, function, Trap\n")
    ws.fresh_process()
    sys.path.append(cwd)
    return name, a.model_dump()


TRAP_NAMES = ["function", "Trap", "WithMeta", "callable_object", "Fake", "anything", "number", "nothing", "text", "generator", "lam", "CALLS", "json", "graph_model_factory", "Nested", "nope", "__name__", "__builtins__", "__loader__"]


def module_references(mon, rng, case, cwd, load):
    import importlib

    name, a = trap_module(rng, case, cwd)
    P = "causy.causal_discovery.constraint.algorithms."
    genuine = {name + ".GENUINE": a, name + "pkg.GENUINE": a}
    from causy.causal_discovery.constraint.algorithms import pc

    for k in ("PC", "PCClassic", "PCStable", "ParallelPC"):
        if hasattr(pc, k):
            genuine[P + "pc." + k] = getattr(pc, k)._original_algorithm.model_dump()
    refs = [(r, None) for r in NONSENSE + OTHERS + [f"{name}.{t}" for t in TRAP_NAMES] + [name + "pkg.function", name + "pkg.Trap"]] + list(genuine.items())
    traps = importlib.import_module(name)
    rng.shuffle(refs)
    for ref, want in refs[:45]:
        mon.event("module_reference")
        traps.CALLS.clear()
        error = got = None
        try:
            got = load("python_module", ref)
        except Exception as e:
            error = e
        calls = list(sys.modules[name].CALLS) if name in sys.modules else []
        desc = lambda: f"module reference {ref!r}: returned {type(got)} error {error!r} calls {calls}"
        if not mon.check(not calls, "called", desc):
            return False
        mon.event("trap_not_called")
        if want is None:
            from causy.models import Algorithm

            if not mon.check(error is not None or isinstance(got, Algorithm), "not-an-algorithm", desc):
                return False
            if error is None and not mon.check("Nested" in ref or ref.endswith("PC"), "not-an-algorithm", desc):
                return False
        else:
            mon.event("genuine_loaded")
            if not mon.check(error is None and got.model_dump() == want, "genuine-wrong", desc):
                return False
            # what is returned is a copy
            got.pipeline_steps.pop()
            got.name = "changed"
            again = load("python_module", ref)
            if not mon.check(again.model_dump() == want, "definition-shared", lambda: f"changing the returned definition of {ref} changed the original"):
                return False
        mon.evaluate(digest(["module", ref.replace(name, "t"), type(error).__name__]), True)
    return True


def api(mon, rng, case, refs, cwd, root, contents):
    from fastapi.testclient import TestClient

    from causy.causal_discovery.constraint.algorithms import AVAILABLE_ALGORITHMS
    from causy.ui.server import _create_ui_app

    name = f"traps{case['seed'] % 10**9}"
    client = TestClient(_create_ui_app(with_static=False), raise_server_exceptions=False)
    P = "causy.causal_discovery.constraint.algorithms.pc."
    asks = [("file", r) for r in rng.sample(refs, min(20, len(refs)))]
    asks += [("python_module", r) for r in rng.sample(NONSENSE + OTHERS, 8) + [f"{name}.{t}" for t in rng.sample(TRAP_NAMES, 4)] + [name + ".GENUINE", P + rng.choice(["PC", "PCClassic", "PCStable"])]]
    asks += [("name", r) for r in ["PC", "ParallelPC", "pc", "", "PCX", "../PC", "/etc/passwd", "__class__", "keys"]]
    asks += [(t, r) for t in ("FILE", "nope", "", "..", "module", "Name", "file ") for r in ("PC", "p.yml", "os.getcwd")]
    # names of files directly in the directory, as a user would ask for them
    asks += [("file", n) for n in os.listdir(cwd)]
    for t, ref in asks:
        if chr(0) in ref:
            url = f"/api/v1/algorithm/{quote(t, safe='')}/" + quote(ref, safe="")
        else:
            url = f"/api/v1/algorithm/{quote(t, safe='')}/{quote(ref, safe='')}"
        OPENED.clear()
        ON[0] = True
        try:
            r = client.get(url)
        finally:
            ON[0] = False
        mon.event("api")
        bad = outside_opens(cwd, root)
        calls = list(sys.modules[name].CALLS) if name in sys.modules else []
        desc = lambda: f"GET {url} answers {r.status_code} {r.text[:200]} calls={calls}"
        if not mon.check(not bad, "outside-read", lambda: f"read {bad}: {desc()}"):
            return False
        if not mon.check(not calls, "called", desc):
            return False
        want = None
        if t == "file":
            real = inside(ref, cwd)
            want = contents.get(real[0]) if real else None
        elif t == "name" and ref in AVAILABLE_ALGORITHMS:
            want = AVAILABLE_ALGORITHMS[ref]._original_algorithm.model_dump()
        elif t == "python_module" and ref == name + ".GENUINE":
            want = sys.modules[name].GENUINE._original_algorithm.model_dump()
        elif t == "python_module" and ref.startswith(P):
            import importlib

            want = getattr(importlib.import_module(P[:-1]), ref[len(P) :])._original_algorithm.model_dump()
        plain_ref = "/" not in ref and ".." not in ref and chr(0) not in ref and ref not in ("", ".") and "%" not in ref and "\\" not in ref
        if want is not None and plain_ref:
            mon.event("api_loaded")
            got = r.json() if r.status_code == 200 else None
            if not mon.check(got is not None and got["name"] == want["name"] and len(got["pipeline_steps"]) == len(want["pipeline_steps"]), "api-wrong", desc):
                return False
            again = client.get(url)
            if not mon.check(again.status_code == 200 and again.json() == got, "api-unstable", lambda: f"second answer differs: {desc()}"):
                return False
        elif want is None:
            mon.event("api_refused")
            # an empty path segment or a slash selects another route: not found is a client error as well
            if not mon.check(400 <= r.status_code < 500, "api-accepted", desc):
                return False
        mon.evaluate(digest(["api", t, r.status_code, ref.count(".."), ref.startswith("/"), ref[:12].replace(name[:12], "t")]), True)
    return True
