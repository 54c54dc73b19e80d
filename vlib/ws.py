"""Drives the workspace command line interface in a scratch directory."""
import contextlib
import importlib
import os
import shutil
import sys

NASTY = [
    "plain", "a  b" * 30, "word " * 40 + "end", " lead", "trail ", "a\nb", "tab\tx", "~", "null", "yes", "on", "No", "1e3", "0x1f", "0o17", "017", "1_000", "12:30:45",
    "2020-01-01", ".5", ".inf", "nan", "-", "- a", "a: b", "a #b", "#a", "'", '"', 'quote " and \' mixed', "back\\slash", "%a", "@a", "`a", "{a}", "[a]", "&a", "*a", "!a",
    "!!int 3", "|", ">", "? a", "=", "<<", "---", "...", "", "x" * 200, "a\u00a0b", "true", "True", "false", "1.0", "1", "-1", "+1", "é ü", "日本", "😀 smile", "a,b", "--force", "-x",
]


class Prompts:
    """stand-in for questionary: answers are queued per kind of question"""

    def __init__(self):
        self.selects, self.texts, self.paths = [], [], []
        self.asked = 0

    def load(self, selects=(), texts=(), paths=()):
        self.selects, self.texts, self.paths = list(selects), list(texts), list(paths)

    def _answer(self, value):
        self.asked += 1

        class Q:
            def ask(self, *a, **k):
                return value

            unsafe_ask = ask

        return Q()

    def select(self, message, choices=(), **kw):
        values = []
        for c in choices:
            values.append(getattr(c, "value", c))
        for i, s in enumerate(self.selects):
            if s is None or s in values:
                del self.selects[i]
                return self._answer(s)
        return self._answer(None)

    def text(self, *a, **kw):
        return self._answer(self.texts.pop(0) if self.texts else None)

    def path(self, *a, **kw):
        return self._answer(self.paths.pop(0) if self.paths else None)


class Run:
    def __init__(self, result):
        self.output = result.output
        self.exit_code = result.exit_code
        self.exception = result.exception
        self.ok = result.exit_code == 0 and result.exception is None

    def __repr__(self):
        return f"exit={self.exit_code} exception={self.exception!r} output={self.output[-300:]!r}"


@contextlib.contextmanager
def scratch(name):
    """a fresh working directory; everything it leaves in the interpreter is undone"""
    base = os.path.join(os.environ["VERIF_SCRATCH"], name)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    cwd = os.getcwd()
    path = list(sys.path)
    os.chdir(base)
    try:
        yield base
    finally:
        os.chdir(cwd)
        sys.path[:] = path
        for n, m in list(sys.modules.items()):
            if (getattr(m, "__file__", None) or "").startswith(base):
                del sys.modules[n]
        shutil.rmtree(base, ignore_errors=True)


def fresh_process():
    """every command is a process of its own in real life: forget what was imported from the workspace"""
    base = os.getcwd()
    for n, m in list(sys.modules.items()):
        if (getattr(m, "__file__", None) or "").startswith(base):
            del sys.modules[n]
    importlib.invalidate_caches()


def command(*args, prompts=None, stdin=None):
    import questionary
    from typer.testing import CliRunner

    from causy.cli import app

    fresh_process()
    prompts = prompts or Prompts()
    saved = {k: getattr(questionary, k) for k in ("select", "text", "path")}
    try:
        for k in saved:
            setattr(questionary, k, getattr(prompts, k))
        return Run(CliRunner().invoke(app, ["workspace", *args], input=stdin, catch_exceptions=True))
    finally:
        for k, v in saved.items():
            setattr(questionary, k, v)


def snapshot(base="."):
    res = {}
    for d, dirs, files in os.walk(base):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for f in files:
            p = os.path.join(d, f)
            if os.path.islink(p):
                res[os.path.relpath(p, base)] = os.readlink(p).encode()
                continue
            with open(p, "rb") as h:
                res[os.path.relpath(p, base)] = h.read()
    return res


def write_workspace(state):
    import pydantic_yaml

    from causy.workspaces.models import Workspace

    with open("workspace.yml", "w") as f:
        f.write(pydantic_yaml.to_yaml_str(Workspace(**state)))


def read_workspace():
    """the workspace as the next command sees it"""
    from causy.workspaces.cli import _current_workspace

    return plain(_current_workspace().model_dump())


def plain(o):
    import enum

    if isinstance(o, enum.Enum):
        return o.value
    if isinstance(o, dict):
        return {plain(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    return o


def strict(o):
    """a representation which distinguishes 1, 1.0 and True"""
    if isinstance(o, dict):
        return {k: strict(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [strict(x) for x in o]
    return (type(o).__name__, repr(o))


def difference(a, b, path=""):
    """first difference of two strict() structures"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a.keys() | b.keys():
            if k not in a or k not in b:
                return f"{path}/{k!r} only in {'second' if k in b else 'first'}"
            d = difference(a[k], b[k], f"{path}/{k!r}")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a} != {b}"
