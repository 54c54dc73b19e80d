"""C22: the comparison of stored results."""
import copy
import itertools
import json
import os
import random
import re
from collections import Counter

from vlib import ws
from vlib.core import digest

PROPERTY = "C22"
LEVEL = "exploration"
TECHNIQUE = "output monitor: the printed comparison parsed and compared with a reference comparison of the stored graphs"
RULE = (
    "random graphs with all edge types (identical, slightly different, reversed, disjoint variables, empty) are stored as versions of several experiments, and random selections of experiments and versions are compared with the real command "
    "in the full and the reduced view; the printed table is parsed and compared with a reference comparison of the graphs; unknown names, unknown versions and single names must not be compared; "
    "distinct = distinct (selection, view, differences) observations"
)
ASSUMPTIONS = ["variable names are unique and contain no line breaks and no box drawing characters", "the terminal is wide enough for the table"]
FLOORS = {"compared": 1500, "full_view": 600, "reduced_view": 600, "row": 4000, "pair_agrees": 2000, "pair_differs": 2000, "reversed": 120, "missing_in_one": 1000, "type_differs": 400, "version_selected": 800, "refused": 600, "same_twice": 60, "odd_names": 300, "ambiguous_label": 100, "three_or_more": 500}
CPU_LIMIT = 60


def cases(tier, seed):
    n = 450 if tier == "quick" else 2500
    return [{"seed": seed * 1000183 + i} for i in range(n)]


ODD = ["a", "b", "x [c]", "[red]", "[/b]", "[bold]x[/bold]", ":100:", "t:smile:", "-->", "a - b", "b - a", "*x*", "1", "1.0", "é", "日本", "😀", "x y", "<->", "[link=x]", "\\[a]", "[a", "b]", "100%", "{x}", "---", "A", "Z"]
PLAIN = ["V", "W", "X", "Y", "Z", "alpha", "beta", "x1", "x10", "x2"]


def random_graph(rng, names):
    g = {}
    for i, a in enumerate(names):
        for b in names[i + 1 :]:
            if rng.random() < 0.5:
                t = rng.choice(["D", "D", "U", "B"])
                g[frozenset((a, b))] = (t, (a, b) if t == "D" and rng.random() < 0.5 else (b, a) if t == "D" else None)
    return g


def vary(rng, g, names):
    g = dict(g)
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        a, b = rng.sample(names, 2)
        k = frozenset((a, b))
        r = rng.random()
        if r < 0.5 and k in g and g[k][0] == "D":
            g[k] = ("D", g[k][1][::-1])
        elif r < 0.5:
            g.pop(k, None)
        else:
            t = rng.choice("DUB")
            g[k] = (t, (a, b) if t == "D" else None)
    return g


def store(e, version, g, names, rng, value):
    """a version file written with causy's own graph and result"""
    from causy.edge_types import BiDirectedEdge
    from causy.graph import GraphManager
    from causy.models import AlgorithmReference, AlgorithmReferenceType, Result
    from causy.serialization import CausyJSONEncoder

    m = GraphManager()
    nodes = {n: m.add_node(n, [1.0, 2.0], id_=n) for n in rng.sample(names, len(names))}
    items = list(g.items())
    rng.shuffle(items)
    for k, (t, d) in items:
        a, b = rng.sample(sorted(k), 2)
        if t == "D":
            m.add_directed_edge(nodes[d[0]], nodes[d[1]], {"correlation": value()})
        elif t == "U":
            m.add_edge(nodes[a], nodes[b], {"correlation": value()})
        else:
            m.add_edge(nodes[a], nodes[b], {"correlation": value()}, BiDirectedEdge())
    r = Result(
        algorithm=AlgorithmReference(reference="PC", type=AlgorithmReferenceType.NAME), action_history=[], edges=m.retrieve_edges(), nodes=m.nodes, variables={}, data_loader_hash="d", algorithm_hash="a", variables_hash="v"
    )
    with open(f"{e}_{version}.json", "w") as f:
        f.write(json.dumps(r.model_dump(), cls=CausyJSONEncoder, indent=4))


SYMBOL = {"D": "-->", "U": "---", "B": "<->"}


def parse(output):
    """(header cells, rows) of the printed table or None"""
    rows, header = [], None
    for line in output.splitlines():
        if line.startswith("┃"):
            header = [c.strip() for c in line.strip().strip("┃").split("┃")]
        elif line.startswith("│"):
            rows.append([c.strip() for c in line.strip().strip("│").split("│")])
    return (header, rows) if header is not None else None


def run_case(case, mon):
    os.environ["COLUMNS"] = "3000"
    rng = random.Random(case["seed"])
    with ws.scratch("c"):
        odd = rng.random() < 0.5
        pool_ = ODD if odd else PLAIN
        names = rng.sample(pool_, rng.randint(3, 6))
        twins = None
        if rng.random() < 0.25:
            # different pairs may have the same label
            odd = True
            x, y, z = sorted(rng.sample(["a", "b", "x y", "1"], 3))
            sep = rng.choice([" - ", " - ", " - ", "-", "_", "", " ", ",", "|", "->"])
            names = rng.sample([x, y, z, f"{x}{sep}{y}", f"{y}{sep}{z}"], 5)
            twins = [(x, f"{y}{sep}{z}"), (f"{x}{sep}{y}", z)]
        base = rng.choice(["exp", "a", "e.x", "a_b", "x"])
        exps = rng.sample([base, base + "_1", base + "_1_2", "z" + base, base.upper()], rng.randint(2, 4))
        value = lambda: rng.choice([0.5, -1, 0.25, 1, rng.random()])
        graphs = {}
        first = random_graph(rng, names)
        if twins:
            first.update({frozenset(t): ("U", None) if rng.random() < 0.5 else ("D", t) for t in twins})
        for e in exps:
            graphs[e] = {}
            for v in rng.sample([3, 12, 100, 1700000000, 1700000001, 9, 99], rng.randint(1, 3)):
                here = names if rng.random() < 0.7 else rng.sample(names, rng.randint(2, len(names)))
                g = rng.choice([first, first, random_graph(rng, names), {}]) if rng.random() < 0.5 else vary(rng, first, names)
                g = {k: t for k, t in g.items() if k <= set(here)}
                graphs[e][v] = g
                store(e, v, g, here, rng, value)
        ghost = "ghost"
        store(ghost, 5, first, names, rng, value)
        state = {
            "name": "w", "author": None, "pipelines": {"pc": {"type": "name", "reference": "PC"}}, "dataloaders": {"d": {"type": "json", "reference": "x.json", "options": None}},
            "experiments": {e: {"pipeline": "pc", "dataloader": "d", "variables": {}} for e in exps + ["empty"]},
        }
        ws.write_workspace(state)
        before = ws.snapshot()
        choices = [(e, graphs[e][max(graphs[e])]) for e in exps]
        choices += [(f"{e}_{v}", g) for e in exps for v, g in graphs[e].items() if f"{e}_{v}" not in exps]
        for i in range(14):
            k = rng.choice([2, 2, 2, 3, 4])
            sel = [rng.choice(choices) for _ in range(k)]
            reduced = rng.random() < 0.5
            args = ["diff"] + (["--only-differences"] if reduced else []) + [s[0] for s in sel]
            if not compare(mon, args, sel, reduced, odd, exps):
                return
        for i in range(6):
            good = [rng.choice(choices)[0] for _ in range(rng.choice([1, 1, 2]))]
            bad = rng.choice(["nope", f"{exps[0]}_4", f"{exps[0]}_x", "ghost_5", "ghost", "empty", "empty_5", "_5", "5", "", f"{exps[0]}_", f"nope_{max(graphs[exps[0]])}"])
            if bad in exps or bad in [c[0] for c in choices]:
                continue
            sel = good + [bad]
            rng.shuffle(sel)
            if rng.random() < 0.15:
                sel = [good[0]]
            args = ["diff"] + (["--only-differences"] if rng.random() < 0.5 else []) + sel
            r = ws.command(*args)
            mon.event("refused")
            if not mon.check(parse(r.output) is None, "unknown-compared", lambda: f"{args} (experiments {exps}, versions { {e: sorted(g) for e, g in graphs.items()} }) was compared: {r!r}"):
                return
            if not mon.check(r.exception is not None or r.exit_code != 0 or r.output.strip(), "not-reported", lambda: f"{args}: nothing was reported {r!r}"):
                return
            mon.evaluate(digest(["refused", re.sub("[0-9]+", "N", bad), len(sel), type(r.exception).__name__]), True)
        mon.check(ws.snapshot() == before, "files-changed", "comparing results changed files")


def ambiguous(mon, sel, reduced, rows, want, label, desc):
    """several pairs have the same label: the rows have to be those of the pairs in some order"""
    mon.event("ambiguous_label")
    cells = {p: [SYMBOL[v[0]] if v else "" for v in vals] for p, vals in want.items()}
    # (reversed arrows are compared without their direction here)
    options = [[p for p in map(frozenset, label.get(row[0], [])) if cells[p] == ["-->" if c == "<--" else c for c in row[1:]]] for row in rows]
    mon.event("row", len(rows))

    owner = {}

    def assign(i, tried):
        for p in options[i]:
            if p not in tried:
                tried.add(p)
                if p not in owner or assign(owner[p], tried):
                    owner[p] = i
                    return True
        return False

    for i, row in enumerate(rows):
        if not mon.check(assign(i, set()), "row", lambda: f"row {row} belongs to none of {[sorted(p) for p in want]} or to one which has another row; {desc()}"):
            return False
    if not mon.check(len(owner) == len(want), "pairs", lambda: f"no rows for {[sorted(p) for p in want if p not in owner]}; {desc()}"):
        return False
    mon.evaluate(digest(["ambiguous", reduced, len(sel), sorted(map(str, rows))]), True)
    return True


def compare(mon, args, sel, reduced, odd, exps):
    r = ws.command(*args)
    t = parse(r.output)
    pairs = set()
    for _, g in sel:
        pairs |= set(g)
    desc = lambda: f"{args}: graphs {[{' | '.join(sorted(k)): v for k, v in g.items()} for _, g in sel]} gives {r!r} {r.output[-1500:]}"
    if not mon.check(r.ok and t is not None, "failed", desc):
        return False
    header, rows = t
    mon.event("compared")
    mon.event("reduced_view" if reduced else "full_view")
    if odd:
        mon.event("odd_names")
    if len(sel) > 2:
        mon.event("three_or_more")
    if len({s[0] for s in sel}) < len(sel):
        mon.event("same_twice")
    for n, _ in sel:
        if n not in exps:
            mon.event("version_selected")
    if not mon.check(len(header) == len(sel) + 1 and all(h.startswith(n) for h, (n, _) in zip(header[1:], sel)), "columns", lambda: f"columns {header}; {desc()}"):
        return False
    want = {}
    for p in pairs:
        vals = [g.get(p) for _, g in sel]
        agree = all(v == vals[0] for v in vals)
        mon.event("pair_agrees" if agree else "pair_differs")
        if not agree:
            if any(v is None for v in vals):
                mon.event("missing_in_one")
            ds = {v[1] for v in vals if v and v[0] == "D"}
            if len(ds) > 1:
                mon.event("reversed")
            if len({v[0] for v in vals if v}) > 1:
                mon.event("type_differs")
        if not reduced or not agree:
            want[p] = vals
    label = {}
    for p in want:
        for a, b in itertools.permutations(p):
            label.setdefault(f"{a} - {b}".strip(), []).append((a, b))
    if any(len(q) > 1 for q in label.values()):
        return ambiguous(mon, sel, reduced, rows, want, label, desc)
    seen = Counter()
    for row in rows:
        mon.event("row")
        p = frozenset(label[row[0]][0]) if row[0] in label else None
        if not mon.check(p is not None and len(row) == len(sel) + 1, "row", lambda: f"row {row} is not one of {sorted(label)}; {desc()}"):
            return False
        seen[p] += 1
        first, second = label[row[0]][0]
        for cell, v, (n, _) in zip(row[1:], want[p], sel):
            allowed = {""} if v is None else {SYMBOL[v[0]]}
            if v is not None and v[0] == "D" and v[1] == (second, first):
                allowed.add("<--")  # a reversed arrow may be drawn as such
            if not mon.check(cell in allowed, "symbol", lambda: f"{row[0]} in {n}: {cell!r} instead of {allowed}; {desc()}"):
                return False
    missing = [sorted(p) for p in want if seen[p] != 1]
    if not mon.check(not missing, "pairs", lambda: f"pairs {missing} appear {[seen[frozenset(m)] for m in missing]} times; {desc()}"):
        return False
    mon.evaluate(digest([reduced, len(sel), sorted(str([v and v[0] for v in vals]) for vals in want.values())]), True, {"args": args, "rows": rows[:4]})
    return True
