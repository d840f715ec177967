#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per rule module in sa/rules, the rest of properties.jsonl as not applicable."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
COMMON = ("Decides the structural clauses listed for this property in DESIGN.md on every path of the current source; trusts the analyser's model of "
          "Python (sa/) and, where named, the installed linters' own source. ")
PE = "partial evaluation of the checkers over /repo's syntax trees (reachability under fixed sets of enabled checks)"
AI = "interprocedural abstract interpretation (provenance, heap, exceptions) of /repo's source"
TB = "constant folding of the source's tables and rules over them"
NOTES = {
    "C01": (AI, "Source priority is read off the provenance of every merged value; the behaviour of the four combination operators is decided from their bodies."),
    "C02": (AI, "Non-interference as provenance: with ignoring on, no value derived from the linted file reaches the resulting configuration."),
    "C03": ('abstract interpretation of the whole configuration reading over typed symbolic TOML values', 'Every key position times every value type alone, in lists and in tables; every exception the file, TOML and network calls can raise.'),
    "C04": (AI, "Provenance of the directory each path-valued option is joined with."),
    "C05": (AI, "Search loop and precedence of the implicit configuration."),
    "C06": (AI, "Every open/request reachable from configuration loading is dominated by its access test."),
    "C07": (AI, "Order and guards of cache reads, writes and requests; typestate of the cache entry."),
    "C08": ('abstract interpretation of the option table, the command line parser and the configuration of a run, for every option', 'Every option is set once, twice and ill-formed; every option is read back, then the run is repeated without it in the same abstract state.'),
    "C09": (AI, "Escape and mutation analysis of what is shared between configuration groups."),
    "C10": (AI, "Provenance of the argument lists handed to the linters."),
    "C11": (TB, "Packaged TOML files against the message tables of EduLint and the installed Pylint (read from their source)."),
    "K01": (PE, "Assumes Pylint honours only_required_for_messages as documented."),
    "K02": (PE, "Emissions whose values cannot be resolved are counted in the evidence, not judged."),
    "K03": (TB, "Message tables of EduLint and of the installed Pylint, read from their source."),
    "K04": (PE + "; abstract interpretation of the analysis step", "no-global-vars and is_builtin lookups are exempt, as the property says."),
    "K05": (PE + "; abstract interpretation of the stand-in", "Assumes getattr with computed names is not used on the solver."),
    "K06": ("effect analysis: mutations of syntax-tree and control-flow objects reachable from the checks", "Aliases through containers of unknown content are tracked by attribute names only."),
    "K07": ('abstract interpretation of the graph construction on symbolic programs; successors compared with the meaning of the statements', 'Programs of nesting depth two with arbitrary expressions and statements at the leaves; where exactly in a try body an exception is raised is not claimed.'),
    "K12": ('abstract interpretation of the collection of variable events on symbolic programs; owners, kinds and order compared with the scoping rules', 'About 1200 programs: every way of binding with every use in twelve arrangements of scopes; wildcard imports, calls of locals() and globals() and dynamic code are not claimed.'),
    "K08": (AI, "Evaluator, users of constant values and solver translation interpreted for every type and representative size of constants."),
    "K09": ('points-to analysis (Andersen style, with phases) of the checks, the analyses and the linting of several files; every store, and every mutating call, is an obligation', 'Objects of external libraries are summarised by tables; state hidden inside them is not tracked. Restoring of sys.stdout/stderr is decided by L01.'),
    "K10": (AI, "Evaluator, negation test and solver translation interpreted on symbolic syntax trees; resulting terms compared with Python semantics."),
    "L01": (AI, "Every exit, including BaseException at every call."),
    "L02": (AI, "Exceptions may escape any call; exit statuses are tracked to the process exit."),
    "L03": (TB + "; abstract interpretation of the suppression step", "Acyclicity is decided on the folded table."),
    "L04": (AI + " with symbolic texts; language inclusion of message texts in the tweaks' patterns", "Each tweak is decided for every text its message can have, as declared by the installed linters."),
    "K11": (AI + " with symbolic lines; matching of line templates decided on the patterns", "Every set of requested linters against every form of suppression comment."),
    "L05": (AI, "Field provenance of each reported problem."),
    "L06": (AI, "Every file, group and linter result flows to the output."),
    "L07": ('abstract interpretation of the run under permuted directory listings and set orders; flow-insensitive set-order analysis', 'The final order is computed abstractly for scrambled results; texts and picks are checked in every function of linting and configuration.'),
    "L08": (AI, "Provenance of everything printed."),
    "L09": (AI + "; " + TB, "Pattern derivation is decided for every declared message text."),
    "E01": (AI, "Commands are interpreted with a model of files, threads and network; every request they can make is compared with the flags given."),
    "E02": (AI, "Both background jobs are interpreted under every class of failure of network, files and data; requests, waits, notices and escaping exceptions are reported at their call sites."),
    "E03": (AI, "States of the stored file, histories of downloads and every interruption point are interpreted in a model of files and network."),
}
NA = {
    "K06": "Whether a store hits a node of the inspected program or a copy of it made for comparison depends on which object a recursion over both reaches at run time, and some checks change the graph temporarily and restore it; the points-to analysis in reach (used for K09) cannot separate these from lasting changes without false alarms.",
    "E04": "Quantifies over all executions of the analysed programs; whether a rewriting preserves their behaviour is a semantic equivalence no static argument over EduLint's source settles.",
    "E05": "Exactness of a fixed point over arbitrary graphs is a property of computed values, not of the shape of the code; the structural parts in reach are claimed as K04 and K07.",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "sa", "rules", i + ".py")):
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
                       "technique": "static analysis: " + t, "level": "other", "level_note": COMMON + n})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it (yet).")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "All checks read the source below /repo/edulint on every run and execute nothing of it; no hooks are needed in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not")
