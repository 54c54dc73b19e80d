"""C17: crashes and failing writes at every file operation of a save."""
import ctypes
import copy
import errno
import json
import os
import random
import re
import shutil
import signal
import sys
from urllib.parse import quote

from vlib import pool, ws
from vlib.core import Inconclusive, digest

PROPERTY = "C17"
LEVEL = "fault_enumeration"
TECHNIQUE = "fault injection below libc (kill, partial write, ENOSPC/EIO, interrupt at every file-changing call) with a monitor of the surviving directory"
RULE = (
    "every workspace command which saves something runs in a forked process with a preloaded library which numbers the file-changing calls below the workspace directory; the run is repeated with a fault at every number "
    "(SIGKILL before the call, SIGKILL after a prefix of a write, transient and lasting errors, short writes on a full disk, Ctrl-C) and with sequences of such faults; afterwards the workspace has to load as the complete old or new state, "
    "all older files have to be unchanged, listed versions have to be complete both in the loader and the API, and repeating the command has to reach the new state; "
    "distinct = distinct (command, kind of call, fault, surviving state) observations"
)
ASSUMPTIONS = ["the process or the write fails, the machine keeps running (no loss of data the kernel accepted)", "rename replaces atomically"]
FLOORS = {"injected": 800, "killed": 300, "kill_inside_write": 200, "error_injected": 200, "interrupted": 60, "old_state": 400, "new_state": 200, "sequence": 40, "retry": 150, "result_save_faults": 150, "workspace_save_faults": 400, "version_loaded": 800, "api_version": 200}
CPU_LIMIT = 240

KINDS = {1: "open", 2: "write", 3: "sync", 4: "close", 5: "rename", 6: "unlink", 7: "truncate", 8: "link", 9: "mkdir"}
NONE, KILL, PARTIAL_KILL, ERR_ONCE, ERR_FROM, PARTIAL_ERR, SIGINT = range(7)
MODES = ["none", "kill", "partial_kill", "error", "lasting_error", "short_write_then_error", "interrupt"]


def lib():
    L = ctypes.CDLL(None)
    try:
        L.fault_size.restype = ctypes.c_long
        L.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    except AttributeError:
        raise Inconclusive("the fault injection library is not loaded")
    return L


COMMANDS = ["update", "update", "pipeline_name", "eject", "skeleton", "dataloader", "dynamic", "experiment", "experiment_rm", "pipeline_rm", "dataloader_rm", "clear", "init", "init_over", "init_full", "execute_one", "execute_one", "execute_all", "force"]


def cases(tier, seed):
    n = 56 if tier == "quick" else 600
    return [{"seed": seed * 1000171 + i, "tier": tier, "cmd": COMMANDS[i % len(COMMANDS)]} for i in range(n)]


def build_workspace(rng, token):
    rows = [{c: round(rng.gauss(0, 1), 3) for c in "abc"} for _ in range(12)]
    for r in rows:
        r["b"] = round(r["b"] + r["a"], 3)
    with open("data.json", "w") as f:
        json.dump(rows, f)
    P = "causy.causal_discovery.constraint.algorithms.pc."
    pipelines = {"pc": {"type": "name", "reference": "PC"}, "stable": {"type": "python_module", "reference": P + "PCStable"}, "unused": {"type": "name", "reference": "PC"}}
    loaders = {"d": {"type": "json", "reference": "data.json", "options": None}, "unused": {"type": "jsonl", "reference": "x.jsonl", "options": {"a": 1, "b": [True, "yes"]}}}
    base = rng.choice(["exp", "a", "e.x"])
    exps = {}
    for e in [base, base + "_1", "x" + base]:
        exps[e] = {"pipeline": rng.choice(["pc", "stable"]), "dataloader": "d", "variables": {"threshold": rng.choice([0.01, 0.2])}}
    for i in range(rng.choice([0, 3, 70])):  # more than one buffer full
        exps[f"{token}bulk{i}"] = {"pipeline": "unused2", "dataloader": "nope", "variables": {"threshold": 0.5, "note": "x" * rng.choice([1, 60])}}
    if len(exps) > 3:
        pipelines["unused2"] = {"type": "name", "reference": "PC"}
    state = {"name": rng.choice(["w", "a: b # c", "é"]), "author": rng.choice([None, "me"]), "pipelines": pipelines, "dataloaders": loaders, "experiments": exps}
    ws.write_workspace(copy.deepcopy(state))
    return state, [base, base + "_1", "x" + base]


def arguments(cmd, rng, state, exps, token):
    """(argv, prompts, stdin)"""
    p = ws.Prompts()
    e = rng.choice(exps)
    stdin = None
    if cmd == "update":
        args = ["experiment", "update-variable", "--", e, "threshold", rng.choice(["0.3", "1e-9", "0.123456789"])]
    elif cmd == "pipeline_name":
        args = ["pipeline", "add"]
        p.load(["PRECONFIGURED", "PC"], [token + "new"])
    elif cmd == "eject":
        args = ["pipeline", "add"]
        p.load(["EJECT", "PC"], [token + "new"])
    elif cmd == "skeleton":
        args = ["pipeline", "add"]
        p.load(["SKELETON"], [token + "new"])
    elif cmd == "dataloader":
        args = ["dataloader", "add"]
        p.load(["json"], [token + "new"], ["data.json"])
    elif cmd == "dynamic":
        args = ["dataloader", "add"]
        p.load(["dynamic"], [token + "new"])
    elif cmd == "experiment":
        args = ["experiment", "add"]
        p.load(["pc", "d"], [token + "new"])
    elif cmd == "experiment_rm":
        args = ["experiment", "rm", "--", e]
    elif cmd == "clear":
        args = ["experiment", "clear", "--", e]
    elif cmd == "pipeline_rm":
        args = ["pipeline", "rm", "unused"]
    elif cmd == "dataloader_rm":
        args = ["dataloader", "rm", "unused"]
    elif cmd in ("init", "init_over"):
        args = ["init"]
        stdin = ("y\n" if cmd == "init_over" else "") + "name\nauthor\nn\nn\n"
    elif cmd == "init_full":
        args = ["init"]
        p.load(["PRECONFIGURED", "PC", "json", token + "p", token + "d"], [token + "p", token + "d", token + "e"], ["data.json"])
        stdin = "y\nname\nauthor\ny\ny\ny\n"
    elif cmd == "execute_one":
        args = ["execute", "--experiment-name", e]
    else:
        args = ["execute"] + (["--force-reexecution"] if cmd == "force" else [])
    return args, p, stdin, e


def restore(base, snap):
    for n in os.listdir(base):
        p = os.path.join(base, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    for n, b in snap.items():
        p = os.path.join(base, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)


class Child:
    """a command in a process of its own with at most one fault"""

    def __init__(self, L, base, args, prompts, stdin, fault=(0, NONE, 0, 0)):
        sys.stdout.flush()
        sys.stderr.flush()
        L.fault_arm(base.encode(), 0, 0, 0, 0)  # resets the shared record
        L.fault_disarm()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                for s in (signal.SIGALRM, signal.SIGPROF):
                    signal.signal(s, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                signal.alarm(100)
                sys.dont_write_bytecode = True
                p = ws.Prompts()
                p.load(prompts.selects, prompts.texts, prompts.paths)
                # everything a command needs from the outside is imported by now
                L.fault_arm(base.encode(), *fault)
                r = ws.command(*args, prompts=p, stdin=stdin)
                L.fault_disarm()
                code = 0 if r.ok else 1
                if os.environ.get("VERIF_VERBOSE") and not r.ok:
                    print(args, fault, repr(r), file=sys.stderr, flush=True)
            except KeyboardInterrupt:
                code = 1
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        self.killed = os.WIFSIGNALED(status)
        if self.killed and os.WTERMSIG(status) != signal.SIGKILL:
            raise Inconclusive(f"command {args} ended by signal {os.WTERMSIG(status)}")
        self.code = os.WEXITSTATUS(status) if not self.killed else None
        if self.code == 99:
            raise Inconclusive(f"harness failed in {args}")
        self.hit = L.fault_hit()
        self.ops = [(KINDS[L.fault_kind(i)], L.fault_size(i)) for i in range(min(L.fault_count(), 4096))]


def current():
    """the workspace as the next command sees it; None if there is none; or the error"""
    from causy.workspaces.cli import WorkspaceNotFoundError, _current_workspace

    try:
        return ws.strict(ws.plain(_current_workspace().model_dump())), None
    except WorkspaceNotFoundError:
        return None, None
    except Exception as e:
        return None, repr(e)


def version_files(e, files):
    return {int(m.group(1)): f for f in files for m in [re.fullmatch(re.escape(e) + r"_([0-9]+)\.json", f)] if m}


def essence(result):
    """what a complete result of this execution contains, whenever it was computed"""
    return json.dumps(
        {
            "keys": sorted(result),
            "nodes": sorted(n["name"] for n in result["nodes"].values()),
            "edges": sorted([e["u"]["name"], e["v"]["name"], e["edge_type"]["name"]] for e in result["edges"]),
            "history": [[h["name"], len(h["actions"]), len(h["all_proposed_actions"])] for h in result["action_history"]],
            "hashes": [result[k] for k in ("algorithm_hash", "data_loader_hash", "variables_hash")],
            "variables": result["variables"],
        },
        sort_keys=True,
    )


def inspect(mon, base, start, old, new, cmd, victim, complete, desc, use_api):
    """is what survived acceptable? returns (ok, 'old'|'new'|'none')"""
    from causy.serialization import deserialize_result
    from causy.workspaces.cli import _current_workspace, _load_experiment_result, _load_experiment_versions

    state, error = current()
    if not mon.check(error is None, "workspace-damaged", lambda: f"the workspace cannot be loaded: {error}; {desc()}"):
        return False, None
    which = "new" if state == new else "old" if state == old else None
    if not mon.check(which is not None, "workspace-mixed", lambda: f"the workspace is neither the old nor the new one: {ws.difference(old or {}, state or {})}; {desc()}"):
        return False, None
    files = ws.snapshot(base)
    may_go = set(version_files(victim, start).values()) if cmd in ("experiment_rm", "clear") else set()
    for f, content in start.items():
        if f == "workspace.yml" or (f in may_go and f not in files) or f.endswith(".tmp"):
            continue
        if f not in start_files[0]:  # left behind by an earlier fault of a sequence
            if not re.fullmatch(r".*_[0-9]+\.json", f):
                continue
        if not mon.check(files.get(f) == content, "older-file", lambda: f"{f} was {'lost' if f not in files else 'changed'}; {desc()}"):
            return False, None
    if state is None:
        return True, "old"
    workspace = _current_workspace()
    for e in workspace.experiments:
        if "bulk" in e:
            continue
        listed = _load_experiment_versions(workspace, e)
        for v in listed:
            f = f"{e}_{v}.json"
            try:
                r = _load_experiment_result(workspace, e, v)
                fresh = f not in start
                if fresh and not mon.check(essence(r) == complete.get(e), "partial-version", lambda: f"new version {f} is not complete: {essence(r)[:500]} instead of {str(complete.get(e))[:500]}; {desc()}"):
                    return False, None
                deserialize_result(r)
            except Exception as ex:
                mon.violation("partial-version", f"version {f} is listed but cannot be loaded: {ex!r}; {desc()}")
                return False, None
            mon.event("version_loaded")
        if use_api:
            if not api(mon, workspace, e, listed, desc):
                return False, None
    return True, which


def api(mon, workspace, e, listed, desc):
    from fastapi.testclient import TestClient

    from causy.ui.server import _create_ui_app, _set_workspace

    _set_workspace(workspace)
    try:
        client = TestClient(_create_ui_app(with_static=False), raise_server_exceptions=False)
        r = client.get("/api/v1/experiments")
        if not mon.check(r.status_code == 200, "api", lambda: f"the list of experiments fails {r.text[:200]}; {desc()}"):
            return False
        for x in r.json():
            if x["name"] != e:
                continue
            for v in x["versions"]:
                g = client.get(f"/api/v1/experiments/{quote(e, safe='')}/{v['version']}")
                mon.event("api_version")
                if not mon.check(g.status_code == 200, "partial-version", lambda: f"version {v} of {e} is listed by the API but served as {g.status_code} {g.text[:200]}; {desc()}"):
                    return False
        if listed:
            g = client.get(f"/api/v1/experiments/{quote(e, safe='')}/latest")
            if not mon.check(g.status_code == 200, "partial-version", lambda: f"latest of {e}: {g.status_code} {g.text[:200]}; {desc()}"):
                return False
    finally:
        _set_workspace(None)
    return True


start_files = [set()]


def faults(rng, ops, thorough):
    out = []
    for i, (kind, size) in enumerate(ops, 1):
        out.append((i, KILL, 0, 0))
        out.append((i, SIGINT, 0, 0))
        out.append((i, ERR_ONCE, 0, rng.choice({"write": [errno.ENOSPC, errno.EIO], "open": [errno.EACCES, errno.EMFILE, errno.ENOSPC], "sync": [errno.EIO, errno.ENOSPC], "close": [errno.EIO, errno.ENOSPC]}.get(kind, [errno.EIO, errno.EACCES]))))
        if kind == "write" and size > 0:
            cuts = {1, size // 2, size - 1} | {rng.randrange(size) for _ in range(12 if thorough else 2)}
            for c in sorted(cuts):
                out.append((i, PARTIAL_KILL, c, 0))
            for c in rng.sample(sorted(cuts), min(2, len(cuts))):
                out.append((i, PARTIAL_ERR, c, errno.ENOSPC))
            out.append((i, ERR_FROM, 0, errno.ENOSPC))
        elif kind in ("open", "rename", "close", "unlink"):
            out.append((i, ERR_FROM, 0, errno.EIO))
    out.append((len(ops) + 1, KILL, 0, 0))  # beyond the last call: has to behave as without a fault
    limit = 400 if thorough else 36
    if len(out) > limit:
        # the last file operations are those of the saves themselves
        keep = [f for f in out if f[0] > len(ops) - 8]
        rest = [f for f in out if f[0] <= len(ops) - 8]
        rng.shuffle(rest)
        rng.shuffle(keep)
        out = (keep + rest)[: limit * 2 // 3] if not rest else keep[: limit * 2 // 3] + rest[: limit - min(len(keep), limit * 2 // 3)]
    return out


def run_case(case, mon):
    L = lib()
    L.fault_private()
    sys.dont_write_bytecode = True
    rng = random.Random(case["seed"])
    cmd = case["cmd"]
    thorough = case.get("tier") == "thorough"
    import causy.ui.server  # noqa: everything is loaded before processes are forked

    with pool.patched(random.Random(0), (1, 1, 1)), ws.scratch("c") as base:
        base = os.path.realpath(base)
        os.chdir(base)
        token = f"t{case['seed'] % 10**9}"
        state, exps = build_workspace(rng, token)
        if cmd == "init":
            os.remove("workspace.yml")
        elif cmd not in ("execute_all",):
            # earlier versions
            bulk = {k: v for k, v in state["experiments"].items() if k not in exps}
            small = copy.deepcopy(state)
            small["experiments"] = {k: v for k, v in small["experiments"].items() if k in exps}
            ws.write_workspace(copy.deepcopy(small))
            for _ in range(rng.choice([1, 2])):
                r = ws.command("execute", "--force-reexecution")
                if not mon.check(r.ok, "failed", repr(r)):
                    return
            ws.write_workspace(copy.deepcopy(state if cmd != "force" else small))
        else:
            small = copy.deepcopy(state)
            small["experiments"] = {k: v for k, v in small["experiments"].items() if k in exps}
            ws.write_workspace(small)
        if rng.random() < 0.3:
            with open(f"{exps[0]}_5.json.tmp", "w") as f:
                f.write("{" * 50000)
            with open("workspace.yml.tmp", "w") as f:
                f.write("name: [" * 9000)
        args, prompts, stdin, victim = arguments(cmd, rng, state, exps, token)
        start = ws.snapshot(base)
        start_files[0] = set(start)
        old, error = current()
        if error:
            raise Inconclusive(error)
        clean = Child(L, base, args, prompts, stdin)
        if not mon.check(clean.code == 0, "failed", lambda: f"{args} fails without any fault"):
            return
        new, error = current()
        if not mon.check(error is None and (new != old or cmd in ("clear", "execute_one", "execute_all", "force", "update")), "not-saved", lambda: f"{args} had no effect: {error}"):
            return
        after = ws.snapshot(base)
        complete = {}
        for e in exps:
            for v, f in version_files(e, set(after) - set(start)).items():
                complete[e] = essence(json.loads(after[f]))
        if cmd.startswith("execute") or cmd == "force":
            if not mon.check(complete, "not-saved", f"{args} stored no result"):
                return
        family = "result_save_faults" if complete else "workspace_save_faults"
        plan = faults(rng, clean.ops, thorough)
        for n, fault in enumerate(plan):
            restore(base, start)
            if not one(mon, rng, L, base, start, old, new, cmd, victim, complete, args, prompts, stdin, fault, clean, family, n % 4 == 0):
                return
        # several faults in a row without anyone cleaning up
        for _ in range(8 if thorough else 2):
            restore(base, start)
            now, was, chain = start, old, []
            for _ in range(rng.randint(2, 3)):
                fault = rng.choice(plan)
                chain.append(fault)
                if not one(mon, rng, L, base, now, was, new, cmd, victim, complete, args, prompts, stdin, fault, clean, family, False, chain):
                    return
                now = ws.snapshot(base)
                was, _ = current()
                if cmd not in ("update", "execute_one", "execute_all", "force", "clear") and was == new:
                    break  # the command cannot be repeated
                if cmd == "init" and was is not None:
                    break
            mon.event("sequence")


def one(mon, rng, L, base, start, old, new, cmd, victim, complete, args, prompts, stdin, fault, clean, family, use_api, chain=None):
    c = Child(L, base, args, prompts, stdin, fault)
    n, mode, param, err = fault
    kind = clean.ops[n - 1][0] if n <= len(clean.ops) else "end"
    mon.event("injected")
    if c.killed:
        mon.event("killed")
    if mode == PARTIAL_KILL:
        mon.event("kill_inside_write")
    if mode in (ERR_ONCE, ERR_FROM, PARTIAL_ERR) and c.hit:
        mon.event("error_injected")
    if mode == SIGINT and c.hit:
        mon.event("interrupted")
    mon.event(family)
    left = lambda: {f: len(b) for f, b in ws.snapshot(base).items() if start.get(f) != b}
    desc = lambda: f"{args} with fault {MODES[mode]} ({errno.errorcode.get(err)}, byte {param}) at call {n} ({kind}; calls without fault: {[k for k, _ in clean.ops]}){' after ' + str(chain) if chain else ''}; exit {c.code} killed {c.killed}; files which differ: {left()}"
    ok, which = inspect(mon, base, start, old, new, cmd, victim, complete, desc, use_api)
    if not ok:
        return False
    mon.event(which + "_state")
    if c.code == 0 and complete and "--experiment-name" in args:
        got = version_files(victim, set(ws.snapshot(base)) - set(start))
        if not mon.check(len(got) == 1, "silent-loss", lambda: f"the command reports success but stored {got}; {desc()}"):
            return False
    if c.code == 0 and not complete:
        if not mon.check(which == "new" or old == new, "silent-loss", lambda: f"the command reports success but the state is the old one; {desc()}"):
            return False
    mon.evaluate(digest([cmd, kind, MODES[mode], which, c.code, c.killed, min(param, 3), err]), True, {"command": args, "fault": [n, kind, MODES[mode], param], "state": which, "exit": c.code})
    # the user simply tries again
    if chain is None and which == "old" and rng.random() < 0.35 and not (cmd == "experiment_rm" and old == new):
        mid = ws.snapshot(base)
        again = Child(L, base, args, prompts, stdin)
        mon.event("retry")
        state, error = current()
        if not mon.check(again.code == 0 and error is None and state == new, "retry", lambda: f"repeating the command after the fault: exit {again.code} {error} {'' if error else ws.difference(new or {}, state or {})}; {desc()}"):
            return False
        if complete and "--experiment-name" in args:
            got = version_files(victim, set(ws.snapshot(base)) - set(mid))
            if not mon.check(len(got) == 1, "retry", lambda: f"repeating the command stored {got}; {desc()}"):
                return False
            try:
                r = json.load(open(next(iter(got.values()))))
                ok = essence(r) == complete[victim]
            except ValueError:
                ok = False
            if not mon.check(ok, "retry", lambda: f"repeating the command stored an incomplete result; {desc()}"):
                return False
    return True
