#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay in one reviewable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CFG = "edulint/config/config.py"
FC = "edulint/config/file_config.py"
LI = "edulint/linting/linting.py"

# ------------------------------------------------------------------ configuration
p("C01", "Configuration sources override each other in the documented order",
  "For every option, a value given on the command line wins over one given inside the linted file, which wins over one in the selected configuration file, which wins over one in the configuration that file inherits, which wins over the built-in default; within one source the later value wins. Options that accumulate (arguments for the underlying linters) are passed on in that same order, lowest priority first, and a group's expansion takes the place where the group was requested. Named groups, message translations and the 'enabled by' attribution are merged with the same priority.",
  ["configurations", "inputs"], "all combinations of options given at any subset of the four levels",
  "Tests fix a handful of level/option combinations; the guarantee is about every option at every level.",
  [CFG, "edulint/option_parses.py"],
  [("left-to-right merge of two configurations", f"{CFG}: Config.combine, Config._combine"),
   ("last value lookup", f"{CFG}: Config.get_last_value"),
   ("combination operators", "edulint/option_parses.py: Combine"),
   ("assembly of the four sources", f"{CFG}: get_config_many, parse_config_file")],
  observe=["check_code()[0]", "edulint check --json: configs"])

p("C02", "Ignored in-file configuration has no influence",
  "When the command line tells EduLint to ignore its own in-file configuration, linted files are not searched for configuration and nothing written in them affects the configuration used. When instead a configuration file turns this on, the configuration used for the file contains no option taken from the linted file itself. The setting is recognised under both of its documented spellings ('edulint' and 'all').",
  ["inputs", "configurations"], "all file contents and all configurations in which ignoring is switched on",
  "Tests try two or three magic comments; non-interference ranges over all file contents.",
  [CFG],
  [("ignore test", f"{CFG}: _ignore_infile"), ("in-file parsing is skipped", f"{CFG}: _parse_infile_configs"),
   ("in-file part dropped", f"{CFG}: get_config_many")])

p("C03", "Malformed configuration values are reported, never crash the run",
  "Whatever syntactically valid TOML a configuration file contains - any value type under any option, group, translation or language-translation key, nested to two levels - and whatever an in-file configuration comment contains, reading the configuration never raises anything but the documented error for an invalid configuration file. A value of a type its option cannot have is reported and leaves the option as the base configuration sets it; no option ever ends up with a value of another kind than its definition. Files that cannot be opened, decoded or parsed are reported.",
  ["inputs", "configurations"], "all TOML documents (any type at any key) and all magic-comment texts",
  "Tests feed a dozen well-typed TOML files; the space of ill-typed values at each key is unbounded.",
  [CFG, FC, "edulint/config/option_sets.py", "edulint/config/language_translations.py", "edulint/config/utils.py"],
  [("type checks before use", "edulint/config/utils.py: config_file_val_to_str; option_sets.py: parse_option_sets; language_translations.py: parse_lang_translations"),
   ("load errors contained", f"{FC}: load_toml_file")])

p("C04", "Relative paths are resolved against the file that mentions them",
  "A relative configuration-file or language-file path written inside a linted file or inside a configuration file refers to a location relative to the directory of the file that contains it; one given on the command line is relative to the working directory. For local files the result does not depend on where EduLint is started, for every path-valued option. Packaged names, URLs and absolute paths are used as written.",
  ["inputs", "configurations"], "all path values, in all three sources, for all working directories",
  "Tests run from one working directory with one layout.",
  [CFG, FC], [("relative resolution", f"{FC}: get_path_relative_to"), ("in-file resolution", f"{CFG}: resolve_relative_option_path"),
              ("config-file resolution", f"{CFG}: parse_config_file")])

p("C05", "An implicit configuration file in a parent directory is found and used",
  "If a linted file does not select a configuration explicitly and a file named edulint.toml or .edulint.toml exists in its directory or any ancestor directory, the nearest such file becomes the file's configuration. An explicitly selected configuration, in-file or on the command line, takes precedence over the implicit one.",
  ["inputs", "configurations"], "all directory layouts and both accepted names",
  "No test creates an implicit configuration file; the feature is only reachable through directory layouts.",
  [CFG], [("ancestor search", f"{CFG}: search_for_config_in_parents"), ("lowest-priority insertion", f"{CFG}: parse_infile_config")])

p("C06", "Configuration loading respects its access restrictions",
  "A packaged configuration name can never address a file outside the package's configuration directory. When local paths are switched off no configuration or language file outside the package is opened, and when remote configurations are switched off no network request is made for one; every way of naming such a file is subject to the restriction. Remote configurations are only requested with a timeout.",
  ["inputs", "configurations"], "all configuration names, paths and URLs, for all settings of the two restriction switches",
  "Tests sample a few hostile names; the restriction is a property of every path to open()/request.",
  [FC], [("classification", f"{FC}: get_config_type, _only_acceptable_chars"), ("gates", f"{FC}: _load_local_config_file, _load_external_config_file")])

p("C07", "Remote-configuration cache only ever serves content downloaded for that URL",
  "The content returned for a remote configuration is either the body of a successful (status 200) response for that very URL or a cached copy of one; an error response is neither returned nor stored. A fresh enough cached copy is used without a request, a failed request falls back to an older copy, and if there is none an error is raised instead of returning empty or foreign content. The record that makes a cached copy valid is written only after the copy itself.",
  ["fault_sequences", "histories", "crash_points"], "all sequences of downloads, failures, crashes between the two cache writes, and cache ages",
  "Tests have no network faults and cannot enumerate crash points between the two cache writes.",
  [FC], [("cache protocol", f"{FC}: CachedHTTPGet.http_get, _write_version_to_disk, _read_version_from_disk, _get_filepath_from_source")])

p("C08", "Every option is defined once, coherently, and reaches its consumer",
  "Every option a user can name has exactly one definition, found under its own key and, in any letter case, under its own name: it states whether the option takes a value, its default, its value type and how repeated values combine. A value set for an option is what its consumers read at the option's position, leaves every other option alone, has the kind of the default, and combines with a repeated value as the definition says; defaults and combined values are never modified. Each linter with arguments has an option of its own name whose repeated values add up, and the two lead to each other.",
  ["configurations"], "all options, at every place that indexes a configuration by option",
  "Tests touch the options they use; table completeness and immutability of shared defaults concern all of them.",
  ["edulint/options.py", "edulint/option_parses.py", CFG],
  [("option table", "edulint/option_parses.py: OPTIONS"), ("option enumeration", "edulint/options.py: Option"), ("positional config", f"{CFG}: to_immutable, ImmutableConfig")])

p("C09", "Files linted together do not influence each other's configuration",
  "When several files are linted in one run, the configuration, message translations and groups used for a file are determined only by the command line, that file and the configuration it selects. Results computed for another file or group of files in the same run, in whatever order, never leak into them.",
  ["histories", "configurations"], "all sets and orders of linted files with differing configurations",
  "Tests lint files separately or with one shared configuration.",
  [CFG, "edulint/config/option_sets.py", "edulint/config/language_translations.py"],
  [("per-group assembly", f"{CFG}: get_config_many"), ("grouping", f"{CFG}: _parse_infile_configs")])

p("C10", "Arguments for the underlying linters are passed on verbatim",
  "The arguments a user configures for Pylint or Flake8 reach that linter unaltered: same text, same letter case, none dropped except enable/disable arguments made irrelevant by a later 'all', none added except the fixed output and recursion flags and the files to lint, and in the configured order. Arguments configured for one linter never reach the other.",
  ["inputs", "configurations"], "all argument strings for both linters",
  "Tests pass lower-case message names only; the guarantee is about every argument text.",
  [CFG, LI, "edulint/option_parses.py"],
  [("conversion", "edulint/option_parses.py: Type.LIST"), ("all-resolution", f"{CFG}: Config._resolve_enable_disable_all"), ("invocation", f"{LI}: lint_pylint, lint_flake8")])

p("C11", "Packaged configurations refer only to existing options, groups and checks",
  "Every configuration shipped with EduLint parses, uses only options EduLint defines, selects only groups that are defined there or in what it inherits, and enables or disables only Pylint checks that Pylint or EduLint itself defines; its Flake8 selections are well-formed codes. Checks that need the optional solver are not enabled by the default configuration.",
  ["configurations"], "all packaged configurations and every check name in them",
  "An unknown check name only produces a Pylint warning at run time; no test reads the packaged files against the check registry.",
  ["edulint/config/files/default.toml", "edulint/config/files/cs0.toml", "edulint/config/files/cs1.toml", "edulint/config/files/full.toml", "edulint/config/files/webtiger.toml", "edulint/config/files/empty.toml"],
  [("packaged files", "edulint/config/files/*.toml"), ("check declarations", "edulint/linting/checkers/**: msgs")])

# ------------------------------------------------------------------ pipeline
p("K12", "Every name refers to the variable Python resolves it to",
  "In every linted program, each occurrence of a name that reads, binds, deletes or changes a variable, whatever statement or expression it is in (including decorators, base classes, defaults, annotations, comprehensions, patterns, imports and definitions nested in other statements), is attributed to exactly the variable Python's scoping rules give (enclosing functions, class bodies hidden from their methods, global and nonlocal, comprehension scopes, assignment expressions, deletion), independently of the order in which bindings and uses are written; it is recorded as what it does (binding, reading, deleting, or modifying through an attribute, an item or one of the usual mutating methods of collections); and where one statement both reads and binds a name, the read that happens first is recorded first. It is recorded at the innermost location of the control-flow graph it belongs to, bindings of parameters inside their function. Collecting this never fails.",
  ["programs"], "all programs built of one way of binding, one way of using a name and an arrangement of scopes, with arbitrary values",
  "Tests look at the names of a fixed set of sample functions.",
  ["edulint/linting/analyses/variable_scope.py", "edulint/linting/analyses/var_events.py"], [("collection of events", "edulint/linting/analyses/variable_scope.py: VarEventListener"), ("records", "edulint/linting/analyses/var_events.py: VarEvent, VarEvents")])

p("L01", "Standard streams are restored whatever happens while linting",
  "While a linter runs in-process its output streams are captured; on every way out of that step - normal completion, the linter exiting, or any exception including interruption - the process's standard output and error are again the ones that were in place before. The streams are the original ones before results are processed or reported.",
  ["fault_sequences", "programs"], "all exits of the capturing steps, for all linted programs",
  "Tests exercise only the normal exit and the linter's own exit.",
  [LI], [("redirection", f"{LI}: lint_flake8, lint_pylint")])

p("L02", "A failed run is never reported as a clean result",
  "If linting cannot be completed - a given path does not exist, a configuration selected for a file cannot be used, a linter fails or cannot be parsed, or an unexpected error escapes - the command exits with a status other than the one for 'no problems found' (0) and 'problems found' (1), and the library entry point reports failure instead of returning an empty or partial list. Exit status 0 is produced by the check command only when all files were linted and no problem was found, and 1 only when a problem was found.",
  ["fault_sequences", "inputs"], "all failures at any step of a run",
  "Tests check the status of successful runs and one missing file; failures inside any step are not enumerable by tests.",
  ["edulint/edulint.py", "edulint/__main__.py", LI, CFG],
  [("failure translation", "edulint/edulint.py: _check_code, check_and_print, main"), ("linter status check", f"{LI}: process_results"), ("skipped files", f"{CFG}: get_config_many")])

p("L03", "A problem is suppressed only in favour of another one on the same line",
  "A reported problem disappears because of another problem only if that other problem is on the same line of the same file and is declared to take precedence over it. Precedence is never circular, so a line on which problems were found always keeps at least one of them. Every message named in the precedence table exists.",
  ["inputs"], "all sets of problems on all lines of all files in a run",
  "Tests cover a few pairs of messages; circularity and same-line scoping concern every combination.",
  ["edulint/linting/overrides.py", LI], [("precedence table", "edulint/linting/overrides.py: OVERRIDERS"), ("suppression", f"{LI}: apply_overrides")])

p("L04", "Message tweaks always recognise the message they are registered for",
  "For every message that has a tweak, the tweak's pattern matches every text the message can have, the groups it reads exist and hold the variable part of the message, and it never fails for any value of the options it consults. A tweak can drop a problem or change its text, nothing else, and problems without a tweak get through unchanged. One-character names that are allowed and built-in names that are not listed as disallowed are dropped; others are kept.",
  ["inputs"], "all texts a tweaked message can have and all values of the consulted options",
  "Tests trigger tweaks with a few sample programs; a mismatch is an assertion failure for the whole run.",
  ["edulint/linting/tweakers.py", LI], [("tweak table", "edulint/linting/tweakers.py: TWEAKERS"), ("application", f"{LI}: apply_tweaks")])

p("L05", "Every reported problem carries the linter's own values in the right fields",
  "For each message produced by an underlying linter, the reported problem has that linter as its source, and its line, column, end position, code, symbol and text are exactly those the linter produced. The reporting configuration ('enabled by') is looked up by the message's code or symbol, and after conversion only the text may be changed.",
  ["inputs", "programs"], "all messages of both linters",
  "Tests compare selected fields for selected messages; swapped or altered fields show only for particular messages.",
  [LI, "edulint/linting/problem.py"], [("conversion", f"{LI}: flake8_to_problem, pylint_to_problem"), ("post-processing", f"{LI}: apply_overrides, apply_tweaks, translate, sort")])

p("L06", "Everything given on the command line is linted and every result is reported",
  "Every file and every Python file under every directory given is linted by each linter that is not switched off, with the configuration determined for it, and the messages of all linters for all files are reported; none is lost except by documented suppression. Flake8 is skipped only when configured off.",
  ["inputs", "configurations"], "all sets of files and directories, partitioned into any number of configuration groups",
  "Tests lint one or two files in one or two groups.",
  [LI, "edulint/edulint.py", CFG], [("collection", f"{LI}: lint, lint_many"), ("file partition", f"{CFG}: _parse_infile_configs, get_config_many"), ("output", "edulint/edulint.py: check_and_print")])

p("L07", "Results are reported in a deterministic, documented order",
  "Problems are reported in order of the position of the given file or directory they belong to, then of file path, line and column (as numbers); problems of no file come first. Which files share a configuration, and the order of configurations, does not depend on the order a directory is listed in or a set is iterated in. No text of a result and no choice among alternatives follows the arbitrary order of a set, object identity or randomness.",
  ["schedules", "histories", "inputs"], "all inputs, all hash seeds, all directory enumeration orders",
  "Tests run under one hash seed and one file system order.",
  [LI, "edulint/edulint.py", "edulint/linting/nonparsing_checkers.py", "edulint/linting/analyses/*"], [("final sort", f"{LI}: sort; edulint/edulint.py: _check_code")])

p("L08", "Text and JSON output present the same problems and configuration completely",
  "Both output formats present every problem of the result exactly once, in result order; JSON output contains every field of every problem and every option of every configuration used. Text output shows path, line, column, code and text of each problem, and with several inputs starts every file's problems with a heading.",
  ["inputs"], "all results", "Tests compare a few outputs; completeness over all fields and options is structural.",
  ["edulint/edulint.py", "edulint/linting/problem.py"], [("rendering", "edulint/edulint.py: check_and_print, to_json; edulint/linting/problem.py: Problem.__str__")])

p("L09", "Translations change only wording and recognise every message's variable parts",
  "A configured translation is chosen by the message's code or, failing that, its symbol, and replaces only the text of that message; messages without translation keep their text. For every message EduLint can emit, the variable parts of its text are recognised so that they can be placed into the translation; no translation can make a run fail.",
  ["configurations", "inputs"], "all messages with placeholders and all translation templates",
  "Tests translate two or three messages.",
  ["edulint/config/language_translations.py", LI], [("pattern derivation", "edulint/config/language_translations.py: to_pattern, get_patterns"), ("substitution", "edulint/config/language_translations.py: Translation.translate"), ("selection", f"{LI}: translate")])

# ------------------------------------------------------------------ checkers
p("K01", "Enabling one check works whatever other checks are enabled",
  "A check that is enabled is carried out regardless of which other checks are enabled or disabled: code that looks for a check's defect is never skipped merely because only unrelated checks are enabled. In particular every check listed as a reason to visit a piece of code exists and every check whose message can be emitted from a visit is listed as a reason for that visit.",
  ["configurations", "programs"], "all subsets of enabled checks",
  "There are 2^n sets of enabled checks; tests enable one or all.",
  ["edulint/linting/checkers/*"], [("visit gating", "only_required_for_messages decorators, is_message_enabled guards in edulint/linting/checkers")])

p("K02", "Every emitted message is declared and filled with the right number of values",
  "Every message a check can emit is declared by that very check, and the number of values supplied equals the number of placeholders in its declared text, on every path that emits it.",
  ["programs", "inputs"], "all emission sites, all paths to them, all analysed programs",
  "A wrong argument count only fails when the particular emission is triggered by the right program.",
  ["edulint/linting/checkers/*"], [("declarations", "msgs tables"), ("emissions", "add_message call sites, Fixed(...) suggestions")])

p("K03", "Message identifiers are unique, well-formed and registered",
  "No two EduLint checks share a message code or symbol with each other, or with a check built into the Pylint version in use (Pylint's optional extensions aside). Each check class's codes share one prefix, each class that declares messages is registered when its plugin is loaded, and every plugin that a packaged configuration loads exists.",
  ["configurations"], "all check classes and all packaged plugin lists",
  "Pylint reports conflicts only when the conflicting plugins are loaded together.",
  ["edulint/linting/checkers/*", "edulint/config/files/*.toml"], [("declarations", "msgs tables"), ("registration", "register functions")])

p("K04", "Checks use data-flow facts only when the data-flow analysis succeeded",
  "A check reports problems on the strength of the variable-dependency analysis only if that analysis succeeded for the file being checked; when it could not be carried out, checks that need it stay silent instead of failing or guessing (no-global-vars, which lists single collected events, and the question whether a name may be a builtin excepted). Whether the analysis succeeded is recorded for every analysed file on every outcome, and when it did, the checks that need it are carried out.",
  ["programs"], "all checks, all programs including those with unknowable names",
  "Tests hold few programs for which the analysis fails, and run few checks on them.",
  ["edulint/linting/analyses/patcher.py", "edulint/linting/analyses/utils.py", "edulint/linting/checkers/*"],
  [("guard", "edulint/linting/analyses/utils.py: requires_data_dependency_analysis"), ("success flag", "edulint/linting/analyses/patcher.py: run_analyses")])

p("K05", "The solver is used only for checks documented as requiring it",
  "EduLint works without the optional solver installed as long as no check documented as requiring it is enabled: nothing touches the solver when the package is imported or when only other checks are enabled. If such a check is enabled without the solver, the run fails with an installation hint rather than silently skipping the check.",
  ["configurations", "programs"], "all sets of enabled checks without a solver-requiring one, all programs",
  "The test environment always has the solver installed.",
  ["edulint/linting/analyses/_z3.py", "edulint/linting/checkers/simplifiable_if.py", "edulint/linting/analyses/z3_analysis.py", "edulint/linting/analyses/z3_block_analysis.py"],
  [("lazy stand-in", "edulint/linting/analyses/_z3.py"), ("enabled-message guards", "edulint/linting/checkers/simplifiable_if.py")])

p("K06", "Checks never modify the program representation they inspect",
  "The syntax tree and the control-flow graph built for a file are shared by all checks; no check or helper used by a check changes a node, re-parents it or alters a collection belonging to it, so every check sees the file as written. Only the analysis that builds these facts attaches them.",
  ["programs", "schedules"], "all programs, all orders in which checks run",
  "A stray mutation is visible only for programs on which two particular checks meet.",
  ["edulint/linting/checkers/*", "edulint/linting/analyses/*"], [("read-only discipline", "edulint/linting/checkers, edulint/linting/analyses"), ("copies", "edulint/linting/analyses/antiunify.py: new_node")])

p("K07", "Every kind of compound statement is part of the control-flow graph",
  "For every statement kind of the supported Python versions that contains other statements (conditionals, loops, with, try with every combination of handlers, else and finally, exception groups, match, functions and classes, synchronous or asynchronous), nested in any way, every statement, condition, loop header, context manager, pattern and guard is placed into the control-flow graph; each is followed by exactly what can come after it when nothing is raised, with return, break and continue leading through enclosing finally blocks to their target, raise outside of try statements leading out, and none of them falling through; and everything that can be met in some execution, including handlers of exceptions raised anywhere in a try body, is reachable in the graph from the start of its function, class or module.",
  ["programs"], "all programs whose compound statements are nested up to two deep, with jumps, and arbitrary leaves",
  "Tests build graphs for a fixed set of sample functions.",
  ["edulint/linting/analyses/cfg/visitor.py", "edulint/linting/analyses/variable_scope.py"], [("graph construction", "edulint/linting/analyses/cfg/visitor.py: CFGVisitor")])

p("K08", "Evaluating constants in analysed code cannot crash or diverge",
  "Whatever constant expression occurs in the analysed program, evaluating it inside EduLint yields the value Python would compute or 'unknown'; failures of the operators (division by zero, overflow, invalid operands) and operators EduLint does not model yield 'unknown', and no power, shift, repetition or formatting of unbounded cost is carried out. Checks that compute with a constant's value do not fail whatever its type and size. What is handed to the solver never contains numbers it cannot represent (infinities, unconvertible values).",
  ["programs"], "all constant expressions in analysed programs",
  "Tests evaluate ordinary small constants.",
  ["edulint/linting/analyses/utils.py"], [("evaluation", "edulint/linting/analyses/utils.py: get_const_value, get_const_value_rec")])

p("K09", "Checks keep no state from one linted file to the next",
  "Nothing a check or an analysis does while a file is linted changes anything that outlives that file: no module-wide or class-wide collection or variable, no default argument value, no remembered (cached) result and no attribute of a check is filled or altered from one file's content, unless it is set anew before it is consulted for another file. Hence what is reported for a file depends on that file and the configuration only.",
  ["histories"], "all sequences of files linted in one process",
  "Tests lint one file per process or compare single files.",
  ["edulint/linting/checkers/*", "edulint/linting/analyses/*"], [("stateless checkers", "edulint/linting/checkers/*"), ("per-file analyses", "edulint/linting/analyses/patcher.py")])

p("K10", "Operators of analysed code are interpreted with Python's meaning",
  "Wherever EduLint gives meaning to an operator of the analysed program, it is Python's meaning: constant expressions are evaluated with the operator written and its operands in order, and conditions translated for the solver hold exactly when Python says so (for integer variables, where Python raises nothing). Two conditions are taken for negations of (or equal to) each other only if they are, whatever the values of their parts, and each comparison operator is recognised as the negation of its complement. Tables from operators to operators are exact negations, mirror images or changes of strictness, and a comparison with a number on its left is read mirrored.",
  ["programs"], "all operators in all tables and dispatches",
  "Tests exercise some of the operators in some of the tables.",
  ["edulint/linting/analyses/utils.py", "edulint/linting/analyses/z3_analysis.py", "edulint/linting/checkers/simplifiable_if.py", "edulint/linting/checkers/local_defects.py"],
  [("evaluation tables", "edulint/linting/analyses/utils.py: UNARY_SYMBOL_TO_OP, BINARY_SYMBOL_TO_OP, NEGATED_OP"), ("mirror table", "edulint/linting/checkers/simplifiable_if.py: SWITCHED_COMPARATOR"), ("solver dispatch", "edulint/linting/analyses/z3_analysis.py")])

p("K11", "Magic comments are looked for in every line for every requested linter",
  "When suppression comments are to be reported for a set of linters, every line of every given Python file is matched against every pattern of each requested linter ('all' meaning every linter), and each match is reported once per pattern at its line and the column of the comment (a noqa comment on a line importing from ib111 excepted). Linters that were not requested contribute no reports and unknown names are only warned about.",
  ["inputs", "configurations"], "all file contents, all sets of requested linters",
  "Tests check a few comments per linter.",
  ["edulint/linting/nonparsing_checkers.py"], [("scan", "edulint/linting/nonparsing_checkers.py: report_infile_config, CONFIG_PATTERNS")])

# ------------------------------------------------------------------ auxiliary services
p("E01", "Opt-out flags prevent all related network access",
  "With the version check disabled no request for package versions is made, and with explanation updates disabled no request for explanations is made, by any command. Without configuration that names a remote file, a run performs no other network access.",
  ["configurations", "inputs"], "all commands and flag combinations",
  "Tests run without network and cannot observe attempted requests on every path.",
  ["edulint/edulint.py", "edulint/explanations.py", "edulint/versions/version_checker.py"],
  [("flags", "edulint/edulint.py: main, check_for_updates; edulint/explanations.py: update_explanations, get_explanations")])

p("E02", "Background update work can neither delay nor break a run",
  "Version checks and explanation updates run outside the main flow, every request they make has a timeout, and no failure in them - network, file system, malformed data - changes the result or exit status of a run or shows an error trace. Requests are not repeated within a minute whatever their outcome, and an update notice is shown only when a released version other than the installed one is actually known.",
  ["fault_sequences", "schedules"], "all failures and delays of the network and file system during background work",
  "Tests do not inject faults into the background threads.",
  ["edulint/edulint.py", "edulint/explanations.py", "edulint/versions/version_checker.py", "edulint/versions/pypi_helper.py"],
  [("threads", "edulint/edulint.py: check_for_updates; edulint/explanations.py: update_explanations"), ("containment", "edulint/explanations.py: _thread_update_explanations; edulint/versions/version_checker.py: get_latest_version")])

p("E03", "Downloaded explanations are used when valid, packaged ones otherwise",
  "When newer explanations have been downloaded they are the ones shown; if there are none or they cannot be read or parsed, the packaged ones are shown and no error escapes. Only the whole body of a successful response is ever used, also when the program ends while it is being stored, and asking for messages gives exactly the explanations of those messages.",
  ["fault_sequences", "histories"], "all states of the downloaded file and all request outcomes",
  "Tests do not create a downloaded file.",
  ["edulint/explanations.py"], [("selection", "edulint/explanations.py: get_explanations, _load_updated_explanations"), ("download", "edulint/explanations.py: _thread_update_explanations")])

p("E04", "Suggested replacement code preserves behaviour",
  "For every suggestion EduLint makes, applying the suggested change to the program keeps the program's behaviour.",
  ["programs", "inputs"], "all analysed programs and all suggestions",
  "It quantifies over all executions of the analysed program.",
  ["edulint/linting/checkers/*"], [("suggestions", "all checkers that propose code")])

p("E05", "Data-flow facts are exact",
  "For every program, the definitions computed to reach a use, and the uses computed for a definition, are exactly those possible in some execution of the control-flow graph.",
  ["programs"], "all programs",
  "It quantifies over all graphs; a fixed-point computation's numerical result is not visible in the shape of the code.",
  ["edulint/linting/analyses/data_dependency.py", "edulint/linting/analyses/var_events.py"], [("fixed point", "edulint/linting/analyses/data_dependency.py: collect_reaching_definitions")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
