"""C19: every data source yields the same variables and values."""
import copy
import json
import math
import os
import random
import struct

from vlib import ws
from vlib.core import digest

PROPERTY = "C19"
LEVEL = "exploration"
TECHNIQUE = "differential runtime checking: nodes of graphs built from every kind of source compared bit by bit with the table, and fingerprints compared with a model of what changed"
RULE = (
    "random tables (1 to 200 rows, odd column names, key orders which differ between rows, integers beyond 64 bits, denormals, signed zeros, huge and tiny values) are loaded as rows, as columns and through JSON (rows and columns), JSONL (blank lines, line endings) and dynamic loaders; "
    "every node is compared bit by bit with the column; tables with one cell that is no number or is missing must be rejected; fingerprints are compared across edits, rewrites, copies and options; "
    "distinct = distinct (source, shape, kind of values, outcome) observations"
)
ASSUMPTIONS = ["tables are rectangular and have at least one row and one column", "whether booleans and NaN count as numbers is left open", "a dynamic loader reports its content honestly in hash()"]
FLOORS = {"loaded": 2500, "node": 8000, "value": 100000, "rejected": 1500, "row_order_of_keys_differs": 300, "big_integer": 100, "special_float": 1000, "fingerprint_same": 800, "fingerprint_differs": 1500, "same_loader_twice": 500, "input_unchanged": 500, "options_used": 1000, "no_table": 1500, "large_changed": 400, "large_same_size": 200}
CPU_LIMIT = 60

NAMES = ["a", "b", "c", "x1", "x10", "x2", "A", "_dict", "_", "", " ", "a b", "é", "日本", "😀", "1", "1.0", "true", "null", "a\nb", "a\tb", 'q"q', "back\\slash", "values", "id", "name", "keys", "items", "__class__", "u\u2028v", "n\x85l", "f\x0cf", "s\x1cs", "x" * 100, "a,b", "{", "[0]"]


def cases(tier, seed):
    n = 700 if tier == "quick" else 6000
    return [{"seed": seed * 1000193 + i} for i in range(n)]


def number(rng, mon):
    r = rng.random()
    if r < 0.5:
        return rng.gauss(0, 1)
    if r < 0.65:
        return rng.randint(-1000, 1000)
    if r < 0.7:
        mon.event("big_integer")
        return rng.choice([2**53 + 1, 2**63 - 1, -(2**63), 2**53, -(2**53) - 1, 2**62 + 1, 10**18 + 1])
    if r < 0.85:
        mon.event("special_float")
        return rng.choice([0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1 / 3, 1e-10, 123456789.123456789, 1e22, 16777217.0, 3.4e38, 1e39, 1e-46])
    return rng.uniform(-1e6, 1e6)


def table(rng, mon):
    cols = rng.sample(NAMES, rng.randint(1, 6))
    n = rng.choice([1, 2, 3, 5, 10, 40, 200])
    return cols, [{c: number(rng, mon) for c in cols} for _ in range(n)]


DYN = """from causy.data_loader import AbstractDataLoader
import hashlib, json, math
ROWS = {rows!r}

class DataLoader(AbstractDataLoader):
    def __init__(self, limit=None, tag=None, nested=None):
        self.limit = limit

    def load(self):
        for r in ROWS[: self.limit]:
            yield dict(r)

    def hash(self):
        return hashlib.sha256(repr(ROWS).encode()).hexdigest()
"""


class Sources:
    def __init__(self, token):
        self.token = token
        self.n = 0

    def all(self, rng, cols, rows, numeric=True):
        """(name, data or loader) for every kind of source which can express the table"""
        from causy.data_loader import DataLoaderReference, load_data_loader

        out = [("rows", copy.deepcopy(rows))]
        complete = all(set(r) == set(cols) for r in rows)
        if complete:
            order = rng.sample(cols, len(cols))
            columns = {c: [r[c] for r in rows] for c in order}
            out.append(("columns", columns))
            out.append(("tuples", {c: tuple(v) for c, v in columns.items()}))
        jsonable = True
        try:
            text = json.dumps(rows, ensure_ascii=rng.random() < 0.5)
        except TypeError:
            jsonable = False
        self.n += 1
        stem = f"{self.token}n{self.n}"
        if jsonable:
            with open(stem + ".json", "w", encoding="utf-8") as f:
                f.write(rng.choice(["", "\n", "  "]) + (text if rng.random() < 0.5 else json.dumps(rows, indent=2)) + rng.choice(["", "\n"]))
            out.append(("json", load_data_loader(DataLoaderReference(type="json", reference=stem + ".json", options=rng.choice([None, {}, {"a": 1}])))))
            if complete:
                with open(stem + "c.json", "w", encoding="utf-8") as f:
                    f.write(json.dumps(columns, ensure_ascii=rng.random() < 0.5))
                out.append(("json columns", load_data_loader(DataLoaderReference(type="json", reference=os.path.abspath(stem + "c.json")))))
            ascii_ = rng.random() < 0.5
            nl = rng.choice(["\n", "\n", "\r\n", "\n\n", "\n   \n"])
            with open(stem + ".jsonl", "w", encoding="utf-8", newline="") as f:
                f.write(rng.choice(["", "\n"]) + nl.join(json.dumps(r, ensure_ascii=ascii_) for r in rows) + rng.choice(["", nl]))
            out.append(("jsonl", load_data_loader(DataLoaderReference(type="jsonl", reference=stem + ".jsonl", options=rng.choice([None, {"x": [1]}])))))
        if numeric or jsonable:
            with open(stem + "m.py", "w", encoding="utf-8") as f:
                f.write(DYN.format(rows=rows))
            ws.fresh_process()
            opts = rng.choice([None, {}, {"limit": len(rows)}, {"tag": "x"}])
            out.append(("dynamic", load_data_loader(DataLoaderReference(type="dynamic", reference=rng.choice([stem + "m.DataLoader", stem + "m"]) if rng.random() < 0.3 else stem + "m.DataLoader", options=opts))))
        return out


def bits(x):
    return struct.pack("<d", float(x))


def run_case(case, mon):
    import sys

    from causy.causal_discovery.constraint.algorithms import PC

    sys.dont_write_bytecode = True
    rng = random.Random(case["seed"])
    with ws.scratch("c") as base:
        sys.path.append(base)
        src = Sources(f"s{case['seed'] % 10**9}")
        cols, rows = table(rng, mon)
        if rng.random() < 0.6:
            rows = [{c: r[c] for c in rng.sample(cols, len(cols))} for r in rows]
            mon.event("row_order_of_keys_differs")
        for name, data in src.all(rng, cols, rows):
            if not load(mon, PC, name, data, cols, rows):
                return
        # one cell which is no number
        for _ in range(2):
            bad = [dict(r) for r in rows]
            i, c = rng.randrange(len(rows)), rng.choice(cols)
            what = rng.choice(["1", "x", "", None, [1.0], [], {}, {"a": 1}, "nan", [[1.0, 2.0]], "missing", 1j, b"1", object])
            if isinstance(what, dict) and "_dict" in cols:
                continue  # how a file of columns is marked internally
            every = rng.random() < 0.3
            for k, r in enumerate(bad):
                if k == i or every and what != "missing":
                    if what == "missing":
                        if k == 0 and len(rows) == 1:
                            r[c] = None
                        elif k == 0:
                            del bad[1][c]
                        else:
                            del r[c]
                    else:
                        r[c] = copy.deepcopy(what)
            if what == "missing" and len(rows) > 1 and all(set(r) == set(cols) for r in bad):
                continue
            for name, data in src.all(rng, cols, bad, numeric=False):
                if not reject(mon, PC, name, data, what, i, c, bad):
                    return
        if not options(mon, rng, PC, src, cols, rows) or not shapes(mon, rng, PC, src):
            return
        fingerprints(mon, rng, src, cols, rows)
        if case["seed"] % 20 == 0:
            large(mon, rng, PC, src)


def options(mon, rng, PC, src, cols, rows):
    """the options given for a dynamic loader reach it"""
    from causy.data_loader import DataLoaderReference, load_data_loader

    src.n += 1
    stem = f"{src.token}o{src.n}m"
    with open(stem + ".py", "w", encoding="utf-8") as f:
        f.write(DYN.format(rows=rows))
    ws.fresh_process()
    for limit in {1, rng.randint(1, len(rows)), max(1, len(rows) - 1)}:
        d = load_data_loader(DataLoaderReference(type="dynamic", reference=stem + ".DataLoader", options={"limit": limit, "tag": "x"}))
        mon.event("options_used")
        if not load(mon, PC, f"dynamic with limit {limit}", d, cols, rows[:limit]):
            return False
    return True


def shapes(mon, rng, PC, src):
    """files which hold no table at all"""
    from causy.data_loader import DataLoaderReference, load_data_loader

    for text in rng.sample(["1", "1.5", '"a"', '"abc"', "null", "true", "false", "-3", '""', "[1, 2]", '["a"]', "[[1, 2], [3, 4]]", "[null]", "{", "", "[{\"a\": 1},", '{"a": 1}', '{"a": "xyz"}'], 4):
        kind = rng.choice(["json", "json", "jsonl"])
        if kind == "jsonl" and text in ('{"a": 1}', ""):
            kind = "json"
        src.n += 1
        path = f"{src.token}t{src.n}.{kind}"
        with open(path, "w") as f:
            f.write(text)
        mon.event("no_table")
        m = PC()
        try:
            m.create_graph_from_data(load_data_loader(DataLoaderReference(type=kind, reference=path)))
        except Exception as e:
            mon.evaluate(digest(["no table", kind, text, type(e).__name__]), True)
            continue
        mon.violation("no-table", f"a {kind} file which contains {text!r} was accepted: {[(n.name, n.values) for n in m.graph.nodes.values()]}")
        return False
    return True


def large(mon, rng, PC, src):
    """files which are larger than any buffer: every part of them counts"""
    from causy.data_loader import DataLoaderReference, load_data_loader

    n = rng.choice([3000, 12000, 50000])
    cols = ["a", "b", "c"]
    rows = [{c: round(rng.gauss(0, 1), rng.choice([1, 6, 15])) for c in cols} for _ in range(n)]
    for kind in ("json", "columns", "jsonl"):
        path = f"{src.token}large.{'jsonl' if kind == 'jsonl' else 'json'}"

        def write():
            with open(path, "w") as f:
                f.write("\n".join(json.dumps(r) for r in rows) if kind == "jsonl" else json.dumps({c: [r[c] for r in rows] for c in cols} if kind == "columns" else rows))
            os.utime(path, (10**9, 10**9))

        get = lambda: load_data_loader(DataLoaderReference(type="jsonl" if kind == "jsonl" else "json", reference=path))
        write()
        size = os.path.getsize(path)
        h = get().hash()
        for where in (0, 1, n // 4, n // 2, n * 3 // 4, n - 2, n - 1, rng.randrange(n)):
            c = rng.choice(cols)
            old = rows[where][c]
            text = repr(old)
            # one digit, the size of the file stays the same
            k = text.index(".") + 1
            rows[where][c] = float(text[:k] + str((int(text[k]) + 1) % 10 or 1) + text[k + 1 :]) if "e" not in text else old + 1
            write()
            mon.event("large_changed")
            mon.event("large_same_size" if os.path.getsize(path) == size else "large_other_size")
            g = get().hash()
            if rows[where][c] != old and not mon.check(g != h, "fingerprint-same", lambda: f"the fingerprint of a {kind} file of {size} bytes did not change when row {where} of {n} did ({old} -> {rows[where][c]})"):
                return
            mon.evaluate(digest(["large", kind, n, where]), True)
            rows[where][c] = old
        write()
        mon.event("large_bytes", size)
        if not mon.check(get().hash() == h, "fingerprint-changed", lambda: f"the fingerprint of a {kind} file of {size} bytes differs although it has the old content again"):
            return
        if not load(mon, PC, f"large {kind}", get(), cols, rows):
            return


def load(mon, PC, name, data, cols, rows):
    m = PC()
    is_loader = hasattr(data, "load")
    before = None if is_loader else copy.deepcopy(data)
    desc = lambda: f"table with columns {cols}, {len(rows)} rows, first {rows[:2]}, through {name}"
    try:
        m.create_graph_from_data(data)
    except Exception as e:
        mon.violation("not-loaded", f"{e!r}: {desc()}")
        return False
    mon.event("loaded")
    if not is_loader:
        mon.event("input_unchanged")
        if not mon.check(repr(before) == repr(data), "input-changed", lambda: f"the input was modified: {desc()}"):
            return False
    for again in range(2 if is_loader else 1):
        if again:
            mon.event("same_loader_twice")
            data.hash()
            m.create_graph_from_data(data)
        if not same(mon, m.graph, cols, rows, desc):
            return False
    mon.evaluate(digest([name, len(cols), len(rows), sorted({type(v).__name__ for v in rows[0].values()}), sorted(cols)[:2]]), True, {"source": name, "columns": cols[:4], "rows": len(rows)})
    return True


def same(mon, graph, cols, rows, desc):
    nodes = graph.nodes
    names = sorted(n.name for n in nodes.values())
    if not mon.check(names == sorted(cols), "columns", lambda: f"nodes {names} instead of {sorted(cols)}: {desc()}"):
        return False
    for n in nodes.values():
        mon.event("node")
        want = [r[n.name] for r in rows]
        import torch

        ok = isinstance(n.values, torch.Tensor) and n.values.dtype == torch.float64 and n.values.dim() == 1
        if not mon.check(ok, "values", lambda: f"{n.name}: values are {n.values!r}: {desc()}"):
            return False
        got = n.values.tolist()
        mon.event("value", len(got))
        if not mon.check(len(got) == len(want) and all(bits(a) == bits(b) for a, b in zip(got, want)), "values", lambda: f"{n.name}: {got[:5]} ({len(got)}) instead of {want[:5]} ({len(want)}); first difference {next(((i, a, b) for i, (a, b) in enumerate(zip(got, want)) if bits(a) != bits(b)), None)}: {desc()}"):
            return False
    return True


def reject(mon, PC, name, data, what, i, c, rows):
    m = PC()
    mon.event("rejected")
    try:
        m.create_graph_from_data(data)
    except Exception as e:
        mon.evaluate(digest(["rejected", name, str(what)[:10], type(e).__name__]), True)
        return True
    n = [n for n in m.graph.nodes.values() if n.name == c]
    mon.violation("not-a-number", f"{what!r} at row {i} of column {c!r} ({len(rows)} rows) was accepted through {name}: {n[0].values if n else None}")
    return False


def variants(rng, rows, cols):
    """tables which differ from rows"""
    out = []
    i, c = rng.randrange(len(rows)), rng.choice(cols)
    v = [dict(r) for r in rows]
    v[i][c] = v[i][c] + 1 if abs(v[i][c]) < 1e6 else 0.5
    out.append(("value", v))
    v = [dict(r) for r in rows]
    x = float(v[i][c])
    v[i][c] = math.nextafter(x, 0.0) if x != 0 else 1e-300
    out.append(("last bit", v))
    out.append(("row added", rows + [dict(rows[0])]))
    if len(rows) > 1:
        out.append(("row removed", rows[:-1]))
        k = rng.randrange(len(rows) - 1)
        v = list(rows)
        v[k], v[k + 1] = v[k + 1], v[k]
        if [list(r.values()) for r in v] != [list(r.values()) for r in rows]:
            out.append(("rows swapped", v))
    new = "renamed"
    out.append(("column renamed", [{(new if k == c else k): x for k, x in r.items()} for r in rows]))
    return out


OPTIONS = [None, {"limit": 1}, {"limit": 2}, {"limit": 1, "tag": "x"}, {"tag": "1"}, {"tag": 1}, {"tag": 1.5}, {"tag": True}, {"tag": None}, {"nested": {"a": [1, 2]}}, {"nested": {"a": [2, 1]}}, {"nested": {"a": [1, 2], "b": "é"}}, {"nested": {"a": "12"}}, {"nested": ["a", "b"]}, {"nested": ["ab"]}]


def fingerprints(mon, rng, src, cols, rows):
    from causy.data_loader import DataLoaderReference, load_data_loader

    def write(kind, path, rows):
        with open(path, "w", encoding="utf-8") as f:
            if kind == "json":
                f.write(json.dumps(rows))
            elif kind == "jsonl":
                f.write("\n".join(json.dumps(r) for r in rows))
            else:
                f.write(DYN.format(rows=rows))
        ws.fresh_process()

    def fp(kind, path, options):
        ref = path if kind != "dynamic" else path[:-3] + ".DataLoader"
        h = load_data_loader(DataLoaderReference(type=kind, reference=ref, options=copy.deepcopy(options))).hash()
        return h

    for kind in ("json", "jsonl", "dynamic"):
        src.n += 1
        ext = {"json": ".json", "jsonl": ".jsonl", "dynamic": ".py"}[kind]
        a, b = f"{src.token}f{src.n}{ext}", f"{src.token}g{src.n}{ext}"
        opts = rng.choice(OPTIONS)
        write(kind, a, rows)
        h = fp(kind, a, opts)
        desc = lambda what: f"{kind}, {what}, options {opts}, rows {rows[:2]} ({len(rows)})"
        # nothing changed
        write(kind, a, rows)
        os.utime(a, (1, 1))
        write(kind, b, rows)
        flipped = dict(reversed(list(opts.items()))) if opts else opts
        for what, g in (("rewritten", fp(kind, a, opts)), ("copied", fp(kind, b, opts)), ("order of options", fp(kind, a, flipped))):
            mon.event("fingerprint_same")
            if not mon.check(g == h, "fingerprint-changed", lambda: f"the fingerprint changed although nothing did: {desc(what)}"):
                return
        seen = {h: "original"}
        for what, v in variants(rng, rows, cols):
            write(kind, b, v)
            g = fp(kind, b, opts)
            mon.event("fingerprint_differs")
            if not mon.check(g != h, "fingerprint-same", lambda: f"the fingerprint did not change: {desc(what)}"):
                return
            mon.evaluate(digest(["fingerprint", kind, what, opts is None]), True)
        hs = {}
        for o in OPTIONS:
            g = fp(kind, a, o)
            mon.event("fingerprint_differs")
            if not mon.check(g not in hs, "fingerprint-same", lambda: f"{kind}: options {o} and {hs[g]} give the same fingerprint"):
                return
            hs[g] = o
            mon.evaluate(digest(["options", kind, o]), True)
