"""Loads echidna's modules from /repo's current source, translated to Python 3 syntax in memory.

mode "sym":  numpy, math, scipy and the numeric builtins are replaced by the symbolic facades.
mode "conc": real numpy/scipy; only modules that do not exist here (h5py, ROOT, rat) are stubbed.
"""
import ast
import builtins
import contextlib
import importlib
import io
import os
import sys
import types
import warnings

warnings.filterwarnings("ignore", category=DeprecationWarning)
warnings.filterwarnings("ignore", category=SyntaxWarning)
warnings.filterwarnings("ignore", category=PendingDeprecationWarning)
warnings.filterwarnings("ignore", category=UserWarning)

REPO = os.environ.get("VERIF_REPO", "/repo")
REPO_TAG = "<repo>/"
FIXERS = ("print except raise exec repr ne numliterals tuple_params throw dict has_key xrange map filter "
          "zip unicode basestring long reduce itertools itertools_imports").split()

_codes = {}
_tool = None
sources_used = {}


def tool():
    global _tool
    if _tool is None:
        import lib2to3.refactor
        _tool = lib2to3.refactor.RefactoringTool(["lib2to3.fixes.fix_" + f for f in FIXERS])
    return _tool


class _Rewrite(ast.NodeTransformer):
    """String formatting of symbolic values, and identity of the numeric types; nothing else."""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(func=ast.Name(id="__verif_mod__", ctx=ast.Load()),
                         args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        """type(x) is float, where the name is bound to the symbolic counterpart of the builtin."""
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and \
                not isinstance(node.comparators[0], ast.Constant):
            call = ast.Call(func=ast.Name(id="__verif_is__", ctx=ast.Load()),
                            args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.IsNot):
                call = ast.UnaryOp(op=ast.Not(), operand=call)
            return ast.copy_location(call, node)
        return node


def translate(path):
    with open(path, encoding="utf-8", errors="replace") as fh:
        src = fh.read()
    try:
        out = str(tool().refactor_string(src if src.endswith("\n") else src + "\n", path))
        ast.parse(out)
        return out
    except Exception:
        return src


def code_for(path):
    if path not in _codes:
        rel = os.path.relpath(path, REPO)
        tree = ast.parse(translate(path))
        tree = ast.fix_missing_locations(_Rewrite().visit(tree))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _codes[path] = compile(tree, REPO_TAG + rel, "exec")
        sources_used[rel] = 1
    return _codes[path]


def find(name):
    base = os.path.join(REPO, *name.split("."))
    if os.path.isdir(base):
        init = os.path.join(base, "__init__.py")
        return (init if os.path.exists(init) else None), True
    if os.path.exists(base + ".py"):
        return base + ".py", False
    return None, False


class Loader(object):
    def __init__(self, mode):
        self.mode = mode
        self.modules = {}
        from . import stubs
        self.stubs = stubs.make(mode, self)
        self.builtins = dict(builtins.__dict__)
        self.builtins["__import__"] = self._import
        from . import npshim
        self.builtins["__verif_mod__"] = npshim.str_mod if mode == "sym" else (lambda a, b: a % b)
        self.builtins["__verif_is__"] = npshim.same
        self.builtins["open"] = stubs.no_open
        self.builtins["print"] = lambda *a, **k: None
        if mode == "sym":
            self.builtins.update(npshim.sym_builtins())

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = find(name)
        if path is None and not ispkg:
            raise ImportError("No module named %s" % name)
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = []
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        try:
            if path:
                exec(code_for(path), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if "." in name:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def run_script(self, rel, argv, prepare=None):
        """Runs a script of the tree as the interpreter does for 'python SCRIPT ARGV...'."""
        path = os.path.join(REPO, rel)
        m = types.ModuleType("__main__")
        m.__file__ = path
        m.__package__ = None
        m.__dict__["__builtins__"] = self.builtins
        if prepare:
            prepare(m)
        old = sys.argv
        sys.argv = [rel] + list(argv)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                exec(code_for(path), m.__dict__)
        finally:
            sys.argv = old
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            parts = parts[:len(parts) - level + 1]
            name = ".".join(parts + ([name] if name else []))
        elif globals is not None and (globals.get("__package__") or "").startswith("echidna") and \
                name.split(".")[0] not in ("echidna",) and name.split(".")[0] not in self.stubs:
            # implicit relative import of Python 2
            cand = globals["__package__"] + "." + name
            p, k = find(cand)
            if p is not None and name.split(".")[0] not in sys.stdlib_module_names:
                name = cand
        top = name.split(".")[0]
        if top == "echidna":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ImportError:
                            raise ImportError("cannot import name %r from %r" % (f, name))
                return m
            return self.load(top)
        if top in self.stubs:
            m = self.stubs[top]
            if m is None:
                raise ImportError("No module named %s" % name)
            parts = name.split(".")[1:]
            t = m
            for p in parts:
                t = getattr(t, p)
            return t if fromlist else m
        return builtins.__import__(name, globals, locals, fromlist, 0)
