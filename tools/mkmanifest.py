"""Writes MANIFEST.json from this table and properties.jsonl (checks exist in checks/)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
REPLAY = "TLA+ (TLC): "
T = {
    "C01": ("TLC explores ConfigMachine.tla (invariants LastWins, AllPassed), its final states are replayed into get_config_many; generated cases are judged by ConfigTrace.tla", "model_checking",
            "Exhaustive for up to 2 (quick) or 3 (thorough) arguments over a small alphabet, random beyond; option values come from the alphabets of lib/gen_config.py."),
    "C02": ("generated sets of files are resolved by the real code and judged by ConfigTrace.tla (partition, values, translations) against Config.tla", "model_checking",
            "Random file sets of up to 8 files with configurations that agree in part; the per-file expectation is Config.tla's, independent of the code."),
    "C03": ("TLC explores ConfigMachine.tla (MalformedIgnored), final states and generated malformed cases are judged by ConfigTrace.tla (values, warnings)", "model_checking",
            "Malformed parts are drawn from a fixed list of kinds placed anywhere."),
    "C04": ("TLC explores ConfigMachine.tla (GroupsApplied), final states and generated cases are judged by ConfigTrace.tla", "model_checking",
            "Option sets are the bundled ones, read from the tree under check as data."),
    "C05": ("TLC explores ConfigMachine.tla (SwitchesLeftToRight), final states and generated cases judged by ConfigTrace.tla on the set of effectively enabled messages", "model_checking",
            "Messages are compared over a cover of named and unnamed ones; message groups of Pylint are opaque names."),
    "C06": ("TLC explores ConfigMachine.tla (CmdIgnoreHolds); real checks judged by ConfigTrace.tla with Suppress.tla (which lines must be reported)", "model_checking",
            "Suppression comments are drawn from a list of spellings."),
    "C07": ("real check_code results judged by ConfigTrace.tla: enabled_by must be the enabler Config.tla derives", "model_checking",
            "Problems come from a fixed piece of code that triggers many messages."),
    "C08": ("generated reference graphs with a local HTTP server are resolved by the real code and judged by ConfigTrace.tla (Resolve follows the references)", "model_checking",
            "Reference depth up to 3, relative references inside remote configurations are left out."),
    "C09": ("TLC explores TranslateMachine.tla (NeverPartly) and its templates are replayed; all bundled message templates and whole checks judged by TranslateTrace.tla", "model_checking",
            "Every bundled message template with random variable parts; which translations a file has is judged by ConfigTrace.tla."),
    "N01": ("TLC explores RemoteCacheMachine.tla (histories of fetches, faults, crashes, time); its behaviours are replayed into the real cache by lib/drv_hist.py with crashes at every line and every file operation, and judged by RemoteCacheTrace.tla", "model_checking",
            "Histories up to 3 (quick) or 4 (thorough) operations exhaustively from the model, random longer ones; crashes are process ends, not power loss."),
    "N02": ("TLC explores VersionsMachine.tla; behaviours replayed into the real version check with injected faults and judged by VersionsTrace.tla", "model_checking",
            "Histories up to 2 (quick) or 3 (thorough) operations exhaustively, random longer ones; PyPI is a stand-in for HTTPAdapter.send."),
    "N03": ("TLC explores ExplanationsMachine.tla; behaviours replayed into the real explanations module with injected faults and judged by ExplanationsTrace.tla", "model_checking",
            "Histories up to 5 (quick) or 7 (thorough) operations, crashes at lines and file operations."),
    "L01": ("TLC explores LintMachine.tla's override profiles; real check_code calls with recording stand-ins for Pylint and Flake8 judged by LintTrace.tla (result)", "model_checking",
            "Raw problem lists are generated (all small multisets from the model, random larger ones), the linters are stand-ins."),
    "L02": ("TLC explores LintMachine.tla's chain profiles; raw problem lists and random programs with the real linters judged by LintTrace.tla (result)", "model_checking",
            "Which operators form a chain is Lint.tla's, on the program text's own expression tree."),
    "L03": ("TLC explores LintMachine.tla's order profile and its results are replayed through the real command line; recorded command-line runs (exit code, printed and JSON output), also with injected faults, judged by LintTrace.tla against the result of the check", "model_checking",
            "The linters are stand-ins for the model's profile and the real ones for random cases; options in the combinations generated by lib/gen_lint.py."),
    "L04": ("TLC explores LintMachine.tla's order profile; real runs over files and folders judged by LintTrace.tla (result, order, paths, calls)", "model_checking",
            "Folders of up to 8 files, path spellings from a list."),
    "L05": ("TLC explores SessionMachine.tla; its histories of checks are replayed in one process and every result compared with that of a fresh process by SessionTrace.tla", "model_checking",
            "Programs from the bundled examples and generated ones."),
    "L06": ("TLC explores SessionMachine.tla (TogetherIsOneByOne); batches of files checked together and one by one judged by SessionTrace.tla", "model_checking",
            "Pylint's own cross-file messages (R0801, R0401) and imports between files of different directories are left out."),
    "L07": ("TLC enumerates all short files of TextMachine.tla; these, the bundled snippets, odd files and random programs are checked by the real code and every result judged by PositionsTrace.tla (a result and not a crash, positions inside the file)", "model_checking",
            "Programs on which Pylint alone crashes are left out; columns may be off by the one Pylint and Flake8 disagree on; time is only bounded for small programs."),
    "A03": ("TLC enumerates all small nestings of scopes in BindMachine.tla; these, random nestings and programs and the bundled snippets are analysed by the real code and the recorded events judged by BindTrace.tla against Python's scoping rules in Bind.tla", "model_checking",
            "Exhaustive for up to 4 (quick) or 5 (thorough) constructs around one name; star imports, private names, type parameters and locals() are left out; Bind.tla itself is compared with Python's symtable."),
    "A01": ("TLC enumerates small programs of FlowMachine.tla; for these, random programs, the bundled snippets and generated code the real code builds graphs, and FlowTrace.tla model checks all executions of Flow.tla against the recorded edges (every step is an edge, nothing executed is claimed unreachable, iteration over successors and predecessors yields what can follow)", "model_checking",
            "Programs of up to 4 (quick) or 5 (thorough) tokens exhaustively, random larger ones; except* and context managers that swallow exceptions are left out; Flow.tla itself is compared with programs really run in Python."),
    "A06": ("TLC enumerates all small conditions of SuggestMachine.tla; these and random larger functions are checked by the real code, and SuggestTrace.tla evaluates every original and suggested expression with the semantics of MiniPy.tla in all small environments", "model_checking",
            "Integers around the constants of the program, booleans, halves of integers; exceptions, NaN and rounding are left out; MiniPy.tla itself is compared with Python on every record."),
    "A07": ("TLC enumerates all small if statements of SuggestMachine.tla; these and random larger functions are checked by the real code, and SuggestTrace.tla executes every original and suggested statement with the semantics of MiniPy.tla in all small environments", "model_checking",
            "Integers around the constants of the program, booleans, halves of integers; exceptions, NaN and rounding are left out; MiniPy.tla itself is compared with Python on every record."),
    "A05": ("TLC enumerates all small loops of LoopMachine.tla (checking on each that MiniPy.tla agrees with unrolled loops); these and random larger functions are checked by the real code, and LoopTrace.tla executes each with and without the claim followed, with the semantics of MiniPy.tla, in all small environments", "model_checking",
            "Integers around the constants of the program, lists of at most four integers, at most 24 iterations; exceptions are left out; MiniPy.tla itself is compared with Python on every record."),
    "A02": ("DefUse.tla extends the execution semantics of Flow.tla with what each part does to variables; TLC executes all small programs of FlowMachine.tla, random ones, and snippets and checks each use-definition pair against the recorded events of the real analysis; the pairs the specification has are compared with those of programs run by Python (opcode traces)", "model_checking",
            "The trees of operations of a program come from lib/pyaccess.py, compared with Python's opcodes on sampled programs. Only flows within one function or module."),
    "A04": ("TLC checks on all pairs of small fragments of AntiUnifyMachine.tla that the least general generalization of AntiUnify.tla fits; these pairs and random ones are given to the real antiunify(), and AntiUnifyTrace.tla checks its recorded results against the fragments", "model_checking",
            "Terms are read off astroid's trees by reflection on the signatures of its classes; docstrings and contexts of tuples are not part of the terms. Use before and after is taken from the events (A02)."),
}
PENDING = "the check is still under construction"
NA = {}


def main():
    ids = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
    assert set(T) <= set(ids)
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": i,
                "quick_cmd": f"./check {i} quick",
                "thorough_cmd": f"./check {i} thorough",
                "technique": REPLAY + T[i][0],
                "level": T[i][1],
                "level_note": T[i][2],
            }
            for i in ids
            if i in T
        ],
        "not_applicable": [{"property": i, "reason": NA.get(i, PENDING)} for i in ids if i not in T],
    }
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
