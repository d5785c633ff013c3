"""Runs the real translation code; see specs/TranslateTrace.tla."""
import json
import os
import sys
import shutil
import tempfile

from loguru import logger

logger.remove()


def templates():
    """code -> message template, straight from the checkers' definitions"""
    import importlib
    import inspect
    import pkgutil
    import pylint.checkers
    from pylint.checkers import BaseChecker
    import edulint.linting.checkers as ec
    from edulint.config.raw_flake8_patterns import FLAKE8

    res = {}
    for mod in (pylint.checkers, ec):
        for mi in pkgutil.walk_packages(mod.__path__):
            sub = importlib.import_module(f"{mod.__name__}.{mi.name}")
            for _, o in inspect.getmembers(sub):
                if inspect.isclass(o) and issubclass(o, BaseChecker):
                    for code, info in o.msgs.items():
                        res.setdefault(code, {})[info[0]] = info[1]
    for code, t in FLAKE8.items():
        res.setdefault(code, {})[t] = ""
    return {c: next(iter(ts.items())) for c, ts in res.items() if len(ts) == 1}


def direct(j):
    from edulint.config.language_translations import parse_lang_translations

    raw = {j["id"]: j["t"]}
    if j["ex"]:
        d = {}
        for e in j["ex"]:
            d.setdefault(str(e["n"]), {})[e["from"]] = e["to"]
        raw["translated_extracts"] = {j["id"]: d}
    try:
        return {"ok": True, "got": parse_lang_translations(raw)[j["id"]].translate(j["code"], j["text"])}
    except BaseException as e:
        return {"ok": False, "err": repr(e)[:300]}


def prob(p, root):
    d = {k: getattr(p, k) for k in ("line", "column", "code", "text", "end_line", "end_column", "symbol", "enabled_by")}
    d = {k: "<null>" if v is None else v for k, v in d.items()}
    d["source"] = p.source.to_name()
    d["file"] = os.path.relpath(os.path.realpath(p.path), root)
    d["path"] = p.path
    return d


def check(j):
    from edulint import check_code
    from edulint.config.config import get_config_many
    from edulint.linting.linting import lint_many, sort

    root = os.path.realpath(tempfile.mkdtemp(prefix="tr"))
    try:
        for name, text in j["files"].items():
            os.makedirs(os.path.dirname(os.path.join(root, name)), exist_ok=True)
            with open(os.path.join(root, name), "w") as o:
                o.write(text)
        args = [os.path.join(root, a) for a in j["args"]]
        opts = list(j["opts"])
        if "rootopt" in j:
            opts.append("language-file=" + os.path.join(root, j["rootopt"]))
        try:
            configs = get_config_many(args, opts)
            base = sort(args, lint_many([(f, c, {}) for f, c, _ in configs]))
            got = check_code(args, opts)[1]
            return {"ok": True, "base": [prob(p, root) for p in base], "got": [prob(p, root) for p in got]}
        except BaseException as e:
            return {"ok": False, "err": repr(e)[:300]}
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    with open(sys.argv[1]) as i, open(sys.argv[2], "w") as o:
        for line in i:
            j = json.loads(line)
            r = templates() if j["k"] == "templates" else direct(j) if j["k"] == "direct" else check(j)
            o.write(json.dumps(r) + "\n")
            o.flush()
