"""A module with the analyses of EduLint, as its checkers get it from Pylint."""
import os
import tempfile

from astroid import MANAGER
from astroid.exceptions import AstroidBuildingError
from pylint.lint import PyLinter

_LINTER = None
_DIR = None


class Unparsable(Exception):
    """Pylint has no tree for it, or the analyses gave up."""


def linter():
    global _LINTER, _DIR
    if _LINTER is None:
        _LINTER = PyLinter()
        _LINTER.load_default_plugins()
        _LINTER.load_plugin_modules(["edulint.linting.analyses.patcher"])
        _DIR = tempfile.mkdtemp(dir=os.getcwd())
    return _LINTER


def analysed(text):
    lint = linter()
    path = os.path.join(_DIR, "prog.py")
    with open(path, "w", encoding="utf8", newline="") as f:
        f.write(text)
    MANAGER.astroid_cache.pop("prog", None)
    lint.set_current_module("prog", path)
    try:
        module = lint.get_ast(path, "prog")
    except AstroidBuildingError:
        raise Unparsable("pylint")
    if module is None:
        raise Unparsable("pylint")
    return module
