"""Loads markflow from the repository's current sources, as many independent times as needed.

Every simulated process gets its own set of module objects (own globals, own loggers), executed from code
objects that are compiled once per harness process.  Because the code objects are shared, interpreter
monitoring (sys.monitoring) can be switched on for them once and then applies to every copy.
"""
import ast
import importlib.abc
import importlib.util
import logging
import os
import pathlib
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "markflow"

DEFAULTS = {"recursion": sys.getrecursionlimit(), "switch": sys.getswitchinterval(),
            "level names": (dict(logging._levelToName), dict(logging._nameToLevel))}

_codes = None          # module name -> (code, filename, is_package)
_all_code = None       # list of every code object, nested ones included
_cleanup = {}          # file name -> set of lines inside finally/except blocks and __exit__/__del__


class RepoUnusable(Exception):
    """The package does not compile or import: an error of the build, not a violation."""


def _load_codes():
    global _codes, _all_code
    if _codes is not None:
        return
    codes, every = {}, []
    root = pathlib.Path(REPO) / PKG
    for path in sorted(root.rglob("*.py")):
        rel = path.relative_to(root).with_suffix("")
        parts = [PKG, *rel.parts]
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        try:
            code = compile(path.read_bytes(), str(path), "exec", dont_inherit=True)
        except SyntaxError as e:
            raise RepoUnusable(f"{path}: {e}")
        codes[".".join(parts)] = (code, str(path), is_pkg)
        _cleanup[str(path)] = _cleanup_lines(path.read_bytes())
        stack = [code]
        while stack:
            c = stack.pop()
            every.append(c)
            stack.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    if PKG not in codes:
        raise RepoUnusable(f"no package {PKG} in {REPO}")
    _codes, _all_code = codes, every


def _cleanup_lines(source):
    lines = set()

    def add(node):
        lines.update(range(node.lineno, node.end_lineno + 1))
    for node in ast.walk(ast.parse(source)):
        if isinstance(node, ast.Try) or type(node).__name__ == "TryStar":
            for stmt in node.finalbody:
                add(stmt)
            for h in node.handlers:
                add(h)
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in ("__exit__", "__del__"):
            add(node)
    return lines


def in_cleanup(frame):
    """Is any active function of the package inside a clean-up block?  (A second failure there is not injected:
    no Python code can defend itself against one.)"""
    while frame is not None:
        lines = _cleanup.get(frame.f_code.co_filename)
        if lines and frame.f_lineno in lines:
            return True
        frame = frame.f_back
    return False


def all_code():
    _load_codes()
    return _all_code


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        _load_codes()
        entry = _codes.get(name)
        if entry is None:
            return None
        spec = importlib.util.spec_from_loader(name, self, origin=entry[1], is_package=entry[2])
        spec.has_location = True
        if entry[2]:
            spec.submodule_search_locations = [os.path.dirname(entry[1])]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, filename, _ = _codes[module.__name__]
        module.__file__ = filename
        exec(code, module.__dict__)

    def get_source(self, name):
        return pathlib.Path(_codes[name][1]).read_text()


_installed = False


def install():
    global _installed
    _load_codes()
    if not _installed:
        sys.meta_path.insert(0, _Finder())
        _installed = True
        for n in _mod_names():
            del sys.modules[n]


def _mod_names():
    return [n for n in _codes if n in sys.modules]


def _log_names():
    return [n for n in logging.root.manager.loggerDict if n == PKG or n.startswith(PKG + ".")]


class ModuleSet:
    """One independent incarnation of the package (plus its loggers)."""

    def __init__(self, modules, loggers):
        self.modules, self.loggers = modules, loggers

    def activate(self):
        deactivate()
        sys.modules.update(self.modules)
        logging.root.manager.loggerDict.update(self.loggers)
        return self

    def save(self):
        """Pick up modules imported and loggers made since activation."""
        self.modules = {n: sys.modules[n] for n in _mod_names()}
        self.loggers = {n: logging.root.manager.loggerDict[n] for n in _log_names()}


def deactivate():
    for n in _mod_names():
        del sys.modules[n]
    for n in _log_names():
        del logging.root.manager.loggerDict[n]


def reset_interpreter():
    """Put the settings of the interpreter that code may change for good back to what a new one starts with."""
    if sys.getrecursionlimit() != DEFAULTS["recursion"]:
        sys.setrecursionlimit(DEFAULTS["recursion"])
    if sys.getswitchinterval() != DEFAULTS["switch"]:
        sys.setswitchinterval(DEFAULTS["switch"])
    for have, want in zip((logging._levelToName, logging._nameToLevel), DEFAULTS["level names"]):
        if have != want:
            have.clear()
            have.update(want)


def fresh(main=True, clean=True):
    """Import the package anew and leave it active."""
    install()
    reset_interpreter()
    if clean:
        deactivate()
    try:
        importlib.import_module(PKG)
        if main:
            importlib.import_module(PKG + ".__main__")
    except Exception as e:          # noqa: BLE001 - whatever it is, the package cannot be imported
        raise RepoUnusable(f"import failed: {type(e).__name__}: {e}")
    ms = ModuleSet({}, {})
    ms.save()
    return ms
