From 990e47797562835bd0cd65c964ee8c6ef673728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 01/57] fix: find the implicit configuration file in parent
 directories

The name of each directory entry was compared with the tuple of names, so
edulint.toml and .edulint.toml were never found.
---
 edulint/config/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 74932aa..c242253 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -341,9 +341,9 @@ def search_for_config_in_parents(path):
     path = Path(path)
     path = (path.parent if path.is_file() else path).absolute()
     while path.parent != path:
-        for elem in path.iterdir():
-            if elem.name == IMPLICIT_CONFIG_FILENAMES:
-                return str(path / elem)
+        for name in IMPLICIT_CONFIG_FILENAMES:
+            if (path / name).is_file():
+                return str(path / name)
         path = path.parent
     return None
 
-- 
2.43.0


From 0780dd16c5af6dc445fee8643f40fd22fe3b35d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 02/57] fix: keep the letter case of arguments passed to pylint

Values such as regular expressions, names and paths were lowercased.
---
 edulint/config/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index c242253..bcd7322 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -156,17 +156,17 @@ class Config:
         result = []
         all_set, enable = False, False
         for arg in reversed(pylint_args):
-            arg = arg.lower()
-            if arg == "--enable=noop":
+            lower_arg = arg.lower()
+            if lower_arg == "--enable=noop":
                 pass
-            elif arg in ("--disable=all", "--enable=all"):
+            elif lower_arg in ("--disable=all", "--enable=all"):
                 if all_set:
                     continue
                 all_set = True
-                enable = arg == "--enable=all"
+                enable = lower_arg == "--enable=all"
             elif all_set and (
-                (arg.startswith("--disable") and enable)
-                or (arg.startswith("--enable") and not enable)
+                (lower_arg.startswith("--disable") and enable)
+                or (lower_arg.startswith("--enable") and not enable)
             ):
                 continue
             result.append(arg)
-- 
2.43.0


From aa2b2a438b4ffea1ea9b178e9117f655029fe13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 03/57] fix: do not leak message translations between
 configurations

The cache of language files stored the translations merged with those of the
configuration file, so another group using the same language file got them too.
---
 edulint/config/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index bcd7322..5bb2be1 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -592,7 +592,7 @@ def get_config_many(
             )
             if lang_file_translations is not None:
                 lang_translations = {**lang_translations, **lang_file_translations}
-                lang_file_results[language_file] = lang_translations
+                lang_file_results[language_file] = lang_file_translations
 
         result.append((paths, iconfig, lang_translations))
     return result
-- 
2.43.0


From 61cb8dfee833f7e8630a7a67434d8b06abdbbb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 04/57] fix: exit with a failure status after an unexpected
 error

logger.catch swallowed the exception and main returned None, so the process
exited with the status of a clean check.
---
 edulint/edulint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index c0ccff4..cdcbc9f 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -286,7 +286,7 @@ def print_message_explanations(args):
     return 0
 
 
-@logger.catch
+@logger.catch(default=2)
 def main() -> int:
     setup_logger()
     option_parses = get_option_parses()
-- 
2.43.0


From 7082b96d04e06692cf99c2bd1298c5391e49feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 05/57] fix: do not parse paths and error messages as color
 markup

A path such as <x>.py made the logger raise instead of reporting the problem.
---
 edulint/edulint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index cdcbc9f..f6097c3 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -162,7 +162,7 @@ def _check_code(
     for file_or_dir in files_or_dirs:
         if not os.path.exists(file_or_dir):
             logger.opt(raw=True, colors=True).critical(
-                f"<red>FileNotFoundError:</red> {file_or_dir}\n"
+                "<red>FileNotFoundError:</red> {path}\n", path=file_or_dir
             )
             return None
 
@@ -172,7 +172,7 @@ def _check_code(
     try:
         results = lint_many(file_configs)
     except (TimeoutError, json.decoder.JSONDecodeError, EduLintLinterFailedException) as e:
-        logger.opt(raw=True, colors=True).critical(f"<red>EduLint linting failed:</red> {e}\n")
+        logger.opt(raw=True, colors=True).critical("<red>EduLint linting failed:</red> {e}\n", e=e)
         return None
 
     return file_configs, sort(files_or_dirs, results)
-- 
2.43.0


From 57497a33753fbdeac3bf2101f899f47b7815153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 06/57] fix: fail when the configuration of a file cannot be
 used

The file was silently left out and the run was reported as clean.
---
 edulint/config/config.py |  9 ++++++---
 edulint/edulint.py       | 10 ++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 5bb2be1..efbb9f6 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -15,7 +15,7 @@ from edulint.option_parses import (
     LANG_TRANSLATIONS_LABEL,
     DEFAULT_ENABLER_LABEL,
 )
-from edulint.config.file_config import load_toml_file, get_path_relative_to
+from edulint.config.file_config import load_toml_file, get_path_relative_to, InvalidConfigFile
 from edulint.config.option_sets import OptionSets, OptionSet, parse_option_sets
 from edulint.config.language_translations import (
     LangTranslations,
@@ -438,7 +438,10 @@ def get_config_one(
     cmd_args: List[str],
     option_parses: Dict[Option, OptionParse] = get_option_parses(),
 ) -> Optional[Tuple[ImmutableConfig, LangTranslations]]:
-    configs = get_config_many([filename], cmd_args, option_parses)
+    try:
+        configs = get_config_many([filename], cmd_args, option_parses)
+    except InvalidConfigFile:
+        return None
     if len(configs) == 0:
         return None
     _filenames, config, lang_translations = configs[0]
@@ -573,7 +576,7 @@ def get_config_many(
             ]
         )
         if config_file_result is None:
-            continue
+            raise InvalidConfigFile(f"unable to use configuration for {', '.join(paths)}")
         file_config, option_sets, lang_translations = config_file_result
 
         if _ignore_infile(file_config):
diff --git a/edulint/edulint.py b/edulint/edulint.py
index f6097c3..e6ac854 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -1,6 +1,7 @@
 from edulint.options import Option
 from edulint.option_parses import OptionParse, get_option_parses
 from edulint.config.config import get_config_many, get_cmd_args, ImmutableConfig
+from edulint.config.file_config import InvalidConfigFile
 from edulint.config.language_translations import LangTranslations
 from edulint.linting.problem import Problem
 from edulint.linting.linting import lint_many, sort, EduLintLinterFailedException
@@ -167,11 +168,16 @@ def _check_code(
             return None
 
     cmd_args = get_cmd_args(options)
-    file_configs = get_config_many(files_or_dirs, cmd_args, option_parses=option_parses)
 
     try:
+        file_configs = get_config_many(files_or_dirs, cmd_args, option_parses=option_parses)
         results = lint_many(file_configs)
-    except (TimeoutError, json.decoder.JSONDecodeError, EduLintLinterFailedException) as e:
+    except (
+        InvalidConfigFile,
+        TimeoutError,
+        json.decoder.JSONDecodeError,
+        EduLintLinterFailedException,
+    ) as e:
         logger.opt(raw=True, colors=True).critical("<red>EduLint linting failed:</red> {e}\n", e=e)
         return None
 
-- 
2.43.0


From 91800a1acc80828e5a27738ed075af73757c61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 07/57] fix: skip configuration file values of unexpected types

A language-file or default-enabler-name that is not a string, a list with
elements other than strings and tables given as other types raised.
---
 edulint/config/config.py                | 6 ++++++
 edulint/config/language_translations.py | 2 +-
 edulint/config/option_sets.py           | 6 +++---
 edulint/config/utils.py                 | 2 +-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index efbb9f6..34328dc 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -406,6 +406,9 @@ def parse_config_file(
                 continue
 
             if option == Option.LANGUAGE_FILE:
+                if not isinstance(val, str):
+                    print_invalid_type_message(option, val)
+                    continue
                 val = get_path_relative_to(val, path)
 
             if not isinstance(val, dict):
@@ -422,6 +425,9 @@ def parse_config_file(
                     result.append(UnprocessedArg(option, str_val))
 
     enabler_name = config_dict.get(DEFAULT_ENABLER_LABEL, Path(path).stem)
+    if not isinstance(enabler_name, str):
+        print_invalid_type_message(DEFAULT_ENABLER_LABEL, enabler_name)
+        enabler_name = Path(path).stem
     this_file_config = Config(enabler_name, result, option_parses)
     return (
         Config.combine(base_config, this_file_config),
diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index bd8f3d0..b810a57 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -114,7 +114,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             val=raw_lang_translations,
             type=type(raw_lang_translations),
         )
-        return None
+        return {}
 
     translated_extracts = raw_lang_translations.get(LANG_TRANSLATED_EXTRACTS_LABEL, {})
     if not isinstance(translated_extracts, dict):
diff --git a/edulint/config/option_sets.py b/edulint/config/option_sets.py
index ae33a68..e0269dc 100644
--- a/edulint/config/option_sets.py
+++ b/edulint/config/option_sets.py
@@ -1,4 +1,4 @@
-from typing import Dict, Any, Optional, List
+from typing import Dict, Any, List
 from dataclasses import dataclass, field
 from loguru import logger
 
@@ -16,14 +16,14 @@ class OptionSet:
 OptionSets = Dict[str, OptionSet]
 
 
-def parse_option_sets(raw_option_sets: Any) -> Optional[OptionSets]:
+def parse_option_sets(raw_option_sets: Any) -> OptionSets:
     if not isinstance(raw_option_sets, dict):
         logger.warning(
             "option sets are not a dictionary but a value {val} of type {type}",
             val=raw_option_sets,
             type=type(raw_option_sets),
         )
-        return None
+        return {}
 
     option_sets = {}
     for name, to in raw_option_sets.items():
diff --git a/edulint/config/utils.py b/edulint/config/utils.py
index d0ca572..6eaf6c5 100644
--- a/edulint/config/utils.py
+++ b/edulint/config/utils.py
@@ -18,7 +18,7 @@ def config_file_val_to_str(option: Union[Option, str], val: Any) -> Optional[str
         return str(val)
     if isinstance(val, str):
         return val
-    if isinstance(val, list):
+    if isinstance(val, list) and all(isinstance(elem, str) for elem in val):
         return ",".join(val)
     if isinstance(val, tuple):
         key, value = val
-- 
2.43.0


From f4d468046a5fccd1d093c05a1d2cbd8c353c6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 08/57] fix: report TOML files that the parser cannot process

Too long integers and too deeply nested arrays raise errors other than
TOMLDecodeError.
---
 edulint/config/file_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index e94b445..da5558d 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -46,7 +46,7 @@ def load_toml_file(filename_or_url: str) -> Optional[Dict[str, Any]]:
     try:
         file_toml = tomli.loads(file_content)
         return file_toml
-    except tomli.TOMLDecodeError as e:
+    except (ValueError, RecursionError) as e:  # tomli.TOMLDecodeError is a ValueError
         logger.error("invalid TOML config file '{f}':\n {e}", f=filename_or_url, e=e)
         return None
 
-- 
2.43.0


From 4a2aa7054a229a6038eb08e7190cec772a7c4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 09/57] fix: report configuration files that inherit from
 themselves

They made the program fail with RecursionError.
---
 edulint/config/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 34328dc..61ffa18 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -365,7 +365,7 @@ def parse_infile_config(path: str, option_parses: Dict[Option, OptionParse]) ->
 
 
 def parse_config_file(
-    path: str, option_parses: Dict[Option, OptionParse]
+    path: str, option_parses: Dict[Option, OptionParse], inheriting: Tuple[str, ...] = ()
 ) -> Optional[Tuple[Config, OptionSets, LangTranslations]]:
     def parse_base_config(config_dict: Dict[str, Any]) -> Optional[Config]:
         rec_config = config_dict.get(Option.CONFIG_FILE.to_name(), BASE_CONFIG)
@@ -373,7 +373,11 @@ def parse_config_file(
             print_invalid_type_message(Option.CONFIG_FILE, rec_config)
             rec_config = BASE_CONFIG
         rec_config_abspath = get_path_relative_to(rec_config, path)
-        return parse_config_file(rec_config_abspath, option_parses)
+        return parse_config_file(rec_config_abspath, option_parses, (*inheriting, path))
+
+    if path in inheriting:
+        logger.error("configuration file '{f}' inherits from itself", f=path)
+        return None
 
     config_dict = load_toml_file(path)
     if config_dict is None:
-- 
2.43.0


From bd0bd19285a2876aa03bf9334d54280d1f9a51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 10/57] fix: report in-file configuration with unbalanced
 quotes

shlex.split raises ValueError for it, which no one handled.
---
 edulint/config/config.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 61ffa18..be6eb29 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -245,7 +245,15 @@ def extract_args(path: str) -> List[str]:
             edmatch = edulint_re.match(line)
             if edmatch:
                 raw_args = line[edmatch.end() :]
-                result.extend(shlex.split(raw_args))
+                try:
+                    result.extend(shlex.split(raw_args))
+                except ValueError as e:
+                    logger.warning(
+                        "invalid in-file configuration on line {line} of {path}: {e}",
+                        line=i + 1,
+                        path=path,
+                        e=e,
+                    )
 
             ibmatch = ib111_re.match(line)
             if ibmatch:
-- 
2.43.0


From 97dc0d3a0d2a2098db2ba246b1e286d1c94e2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 11/57] fix: do not fail on linted files that are not valid
 UTF-8

The underlying linters report such files, but searching them for comments
raised UnicodeDecodeError.
---
 edulint/config/config.py               | 2 +-
 edulint/linting/nonparsing_checkers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index be6eb29..8605d9d 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -238,7 +238,7 @@ def extract_args(path: str) -> List[str]:
     ib111_re = re.compile(r".*from\s+ib111\s+import.+week_(\d+)", re.IGNORECASE)
 
     result: List[str] = []
-    with open(path, encoding="utf-8") as f:
+    with open(path, encoding="utf-8", errors="replace") as f:
         for i, line in enumerate(f):
             line = line.strip()
 
diff --git a/edulint/linting/nonparsing_checkers.py b/edulint/linting/nonparsing_checkers.py
index 9d94afc..5ae0448 100644
--- a/edulint/linting/nonparsing_checkers.py
+++ b/edulint/linting/nonparsing_checkers.py
@@ -52,7 +52,7 @@ def report_infile_config(
     results = []
     ib111_re = re.compile(r".*from\s+ib111\s+import", re.IGNORECASE)
     for file_path in to_file_paths(files_or_dirs):
-        with open(file_path, encoding="utf-8") as f:
+        with open(file_path, encoding="utf-8", errors="replace") as f:
             for i, line in enumerate(f, 1):
                 for pattern in patterns:
                     match = pattern.match(line)
-- 
2.43.0


From f5c67191c65ae129537387a5305f131a561f1091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 12/57] fix: ignore translated extracts that were reported as
 invalid

They were only warned about and made translating a message fail later.
---
 edulint/config/language_translations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index b810a57..5f40ee7 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -123,6 +123,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             type=type(translated_extracts),
         )
         translated_extracts = {}
+    extracts: Dict[str, Dict[str, Dict[str, str]]] = {}
     for id_, val in translated_extracts.items():
         if not isinstance(val, dict):
             logger.warning(
@@ -138,6 +139,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                     order=order,
                     id_=id_,
                 )
+                continue
             if not isinstance(mapping, dict):
                 logger.warning(
                     "translated extracts mapping for order {order} of identifier {id_} is not a dicitonary but a value of type {type}",
@@ -155,6 +157,8 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                         id_=id_,
                         type=type(translated),
                     )
+                    continue
+                extracts.setdefault(id_, {}).setdefault(order, {})[extract] = translated
 
     lang_translations = {}
     for id_, translation in raw_lang_translations.items():
@@ -168,7 +172,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             )
             continue
 
-        lang_translations[id_] = Translation(translation, translated_extracts.get(id_, {}))
+        lang_translations[id_] = Translation(translation, extracts.get(id_, {}))
 
     return lang_translations
 
-- 
2.43.0


From 5db1f6030e945c159f5c5c547cf36a7da3e615d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 13/57] fix: do not fail on a translation that is not a valid
 template

A stray brace or a reference to a missing extract aborted the whole run.
---
 edulint/config/language_translations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 5f40ee7..14398f7 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -101,7 +101,10 @@ class Translation:
         match = re.match(pattern, message, flags=re.IGNORECASE)
         if not match:
             return self.translation
-        return self.translation.format(*self.translate_extracts(match.groups()))
+        try:
+            return self.translation.format(*self.translate_extracts(match.groups()))
+        except (LookupError, ValueError, AttributeError, TypeError):
+            return self.translation
 
 
 LangTranslations = Dict[str, Translation]
-- 
2.43.0


From 10e1a8e28577d9197c1249dcf16b3da6d468a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 14/57] fix: do not share configuration between files that
 order options differently

Files were grouped by their configuration without regard to the order of
different options, although group translations are applied in that order.
---
 edulint/config/config.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 8605d9d..f99aab3 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -147,6 +147,13 @@ class Config:
                 return arg.val
         return None if not use_default else self.option_parses[option].default
 
+    def get_ordered_args(self) -> Tuple[ImmutableArg, ...]:
+        return tuple(
+            ImmutableArg(arg.option, self._to_immutable(arg.val))
+            for arg in self.config
+            if arg is not None
+        )
+
     @staticmethod
     def _to_immutable(val: UnionT) -> ImmutableT:
         return val if not isinstance(val, list) else tuple(val)
@@ -520,24 +527,16 @@ def _ignore_infile(config: Config) -> bool:
 
 def _parse_infile_configs(
     files_or_dirs: List[str], cmd_config: Config, option_parses: Dict[Option, OptionParse]
-) -> Dict[ImmutableConfig, Tuple[Config, List[str]]]:
-
-    def add_to_result(result, config, path, iconfig=None):
-        iconfig = config.to_immutable() if iconfig is None else iconfig
-        if iconfig not in result:
-            result[iconfig] = (config, [path])
-        else:
-            result[iconfig][1].append(path)
-
+) -> Dict[Tuple[ImmutableArg, ...], Tuple[Config, List[str]]]:
     def aggregate_subresults(paths):
         result = {}
         for path in paths:
             subresult = _parse_infile_configs_rec(path)
-            for iconfig, (config, subpaths) in subresult.items():
-                if iconfig not in result:
-                    result[iconfig] = (config, subpaths)
+            for ordered_args, (config, subpaths) in subresult.items():
+                if ordered_args not in result:
+                    result[ordered_args] = (config, subpaths)
                 else:
-                    result[iconfig][1].extend(subpaths)
+                    result[ordered_args][1].extend(subpaths)
         return result
 
     def _parse_infile_configs_rec(path: str):
@@ -546,19 +545,19 @@ def _parse_infile_configs(
                 return {}
 
             infile_config = parse_infile_config(path, option_parses)
-            return {infile_config.to_immutable(log_unknown_groups=False): (infile_config, [path])}
+            return {infile_config.get_ordered_args(): (infile_config, [path])}
 
         result = aggregate_subresults([os.path.join(path, name) for name in os.listdir(path)])
 
         if len(result) != 1:
             return result
 
-        iconfig, (config, _paths) = list(result.items())[0]
-        return {iconfig: (config, [path])}
+        ordered_args, (config, _paths) = list(result.items())[0]
+        return {ordered_args: (config, [path])}
 
     if _ignore_infile(cmd_config):
         default_config = _get_default_config(option_parses)[0]
-        return {default_config.to_immutable(): (default_config, files_or_dirs)}
+        return {default_config.get_ordered_args(): (default_config, files_or_dirs)}
 
     return aggregate_subresults(files_or_dirs)
 
@@ -576,7 +575,10 @@ def get_config_many(
     if cmd_config_path is not None:
         config_paths = {cmd_config_path}
     else:
-        config_paths = {iconfig[Option.CONFIG_FILE] for iconfig in infile_configs.keys()}
+        config_paths = {
+            infile_config.get_last_value(Option.CONFIG_FILE, use_default=True)
+            for infile_config, _paths in infile_configs.values()
+        }
 
     config_file_results = {
         config_path: parse_config_file(config_path, option_parses) for config_path in config_paths
-- 
2.43.0


From 7c28f237030cb6dad68f2905977042e19db3f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 15/57] fix: do not fail or hang when evaluating constants of
 linted code

OverflowError and ZeroDivisionError (0 ** -1) were not handled and operations
such as 9 ** 9 ** 9 were carried out.
---
 edulint/linting/analyses/utils.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 26d08be..2a86d0d 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -411,6 +411,21 @@ BINARY_SYMBOL_TO_OP = {
 }
 
 
+MAX_CONST_SIZE = 4096
+
+
+def _is_cheap_operation(op: str, lt_val: Any, rt_val: Any) -> bool:
+    if op == "**" and isinstance(lt_val, int) and isinstance(rt_val, int):
+        return lt_val.bit_length() * rt_val <= MAX_CONST_SIZE
+    if op == "<<" and isinstance(lt_val, int) and isinstance(rt_val, int):
+        return lt_val.bit_length() + rt_val <= MAX_CONST_SIZE
+    if op == "*" and isinstance(lt_val, (str, bytes)) and isinstance(rt_val, int):
+        return len(lt_val) * rt_val <= MAX_CONST_SIZE
+    if op == "*" and isinstance(lt_val, int) and isinstance(rt_val, (str, bytes)):
+        return lt_val * len(rt_val) <= MAX_CONST_SIZE
+    return op != "%" or not isinstance(lt_val, (str, bytes))
+
+
 def get_const_value_rec(node: Any) -> Any:
     if not isinstance(node, nodes.NodeNG):
         return node
@@ -426,7 +441,9 @@ def get_const_value_rec(node: Any) -> Any:
     if isinstance(node, nodes.BinOp):
         rt_val = get_const_value_rec(node.right)
         if node.op not in ("/", "//", "%") or rt_val != 0:
-            return BINARY_SYMBOL_TO_OP[node.op](get_const_value_rec(node.left), rt_val)
+            lt_val = get_const_value_rec(node.left)
+            if _is_cheap_operation(node.op, lt_val, rt_val):
+                return BINARY_SYMBOL_TO_OP[node.op](lt_val, rt_val)
 
     if isinstance(node, nodes.BoolOp):
         assert len(node.values) > 1
@@ -443,7 +460,7 @@ def get_const_value_rec(node: Any) -> Any:
 def get_const_value(node: Any) -> Any:
     try:
         return get_const_value_rec(node)
-    except (ValueError, KeyError, TypeError):
+    except (ValueError, KeyError, TypeError, ArithmeticError):
         return None
 
 
-- 
2.43.0


From 5e860bb117c249eb1faada40bf6a41234bd272b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 16/57] fix: restore standard streams when a linter raises

The error was then reported into a discarded buffer.
---
 edulint/linting/linting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 70970c6..23df21b 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -171,9 +171,9 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stdout = old_stdout
-    sys.stderr = old_stderr
+    finally:
+        sys.stdout = old_stdout
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.FLAKE8,
@@ -204,8 +204,8 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stderr = old_stderr
+    finally:
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.PYLINT,
-- 
2.43.0


From 035a79de28c4a9183bab37008cabff9bd39d2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 17/57] fix: show the downloaded explanations

The packaged file was read even when a downloaded one existed.
---
 edulint/explanations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index a35b470..0efbef1 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -44,7 +44,7 @@ def _load_updated_explanations() -> Optional[Dict[str, str]]:
     if not path_for_online_file.exists():
         return
     try:
-        with open(EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH, "rb") as f:
+        with open(path_for_online_file, "rb") as f:
             return tomli.load(f)
     except:
         logger.warning("Updated explanations seem to be corrupted. Falling back to those distributed with the pip package.")
-- 
2.43.0


From 6ba2337152e3762f0a3806273284ee2a4c98b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 18/57] fix: respect --disable-explanations-update in the
 explain command

The explanations were updated while being read.
---
 edulint/edulint.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index e6ac854..af67559 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -236,7 +236,9 @@ def check_code(
     return _check_code(files_or_dirs, options, get_option_parses())
 
 
-def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[str, Dict[str, str]]:
+def get_message_explanations(
+    message_ids: Optional[List[str]] = None, disable_explanations_update: bool = False
+) -> Dict[str, Dict[str, str]]:
     """
     Returns explanations for given message ids. If an explanation is requested
     for a message id that does not have an explanation, the warning is
@@ -245,13 +247,16 @@ def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[st
     :param message_ids: An optional list of message ids to receive explanations
       for. If None is passed, returns all available explanations.
     :type message_ids: List[str] | None
+    :param disable_explanations_update: Whether not to look for newer
+      explanations online.
+    :type disable_explanations_update: bool
     :returns: A dictionary with message ids as keys and explanations as values.
       Each explanations is a dictionary with optional keys "why" and "examples".
       "Why" Contains rationale for why the pattern should be avoided. "Examples"
       contains examples of erroneous and corrected code.
     :rtype: Dict[str, Dict[str, str]]
     """
-    explanations = get_explanations()
+    explanations = get_explanations(disable_explanations_update)
     message_ids = message_ids if message_ids is not None else explanations.keys()
 
     m_id_expls = {}
@@ -268,7 +273,7 @@ def print_message_explanations(args):
     message_ids = (
         args.message_ids if not any(id_.lower() == "all" for id_ in args.message_ids) else None
     )
-    m_id_expls = get_message_explanations(message_ids)
+    m_id_expls = get_message_explanations(message_ids, args.disable_explanations_update)
     if args.json:
         data = {"explanations": m_id_expls}
         print(json.dumps(data, indent=2))
-- 
2.43.0


From 71a4f1c1fd2e433b7f03b5af63d5cc9a30b69367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 19/57] fix: do not announce an update when the latest version
 is not known

The notice offered an update to version None.
---
 edulint/versions/version_checker.py | 222 ++++++++++++++--------------
 1 file changed, 112 insertions(+), 110 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 1bbafbc..5632b85 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,110 +1,112 @@
-from typing import Optional, Tuple
-import os
-import json
-from dataclasses import dataclass
-import time
-from pathlib import Path
-
-from platformdirs import PlatformDirs
-from dataclasses_json import dataclass_json
-
-from edulint.versions import pypi_helper
-
-def current_timestamp() -> int:
-    return int(time.time())
-
-
-@dataclass_json
-@dataclass
-class PackageInfo:
-    version: Optional[str] = None
-    last_update_started: int = 0
-
-
-class PackageInfoManager:
-    @staticmethod
-    def get_local_module_version(package_name: str) -> Optional[str]:
-        try:
-            from importlib.metadata import version  # This is only available in Python >= 3.8
-            return version(package_name)
-        except:
-            pass
-
-        try:
-            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
-            return pkg_resources.get_distribution(package_name).version
-        except:
-            pass
-
-        return None
-
-    @staticmethod
-    def _create_json_file_if_doesnt_exist(filepath: str):
-        if os.path.exists(filepath):
-            return
-        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
-        with open(filepath, "w", encoding="utf8") as f:
-            f.write("{}")
-
-    @classmethod
-    def _package_info_path(cls):
-        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
-        cls._create_json_file_if_doesnt_exist(filepath)
-        return filepath 
-
-    @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-
-        package_info = PackageInfo.from_dict(data.get(package_name, {}))
-
-        if version:
-            package_info.version = version
-        if last_update_started:
-            package_info.last_update_started = last_update_started
-            
-        data[package_name] = package_info.to_dict()
-        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
-            json.dump(data, f, indent=4)
-        
-        return package_info
-
-    @classmethod
-    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
-
-    @classmethod
-    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
-        try:
-            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
-            versions = pypi_helper.get_versions(package_name)
-            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
-            latest_version_str = str(sorted_versions[-1])
-            cls._save_package_info_locally(package_name, version=latest_version_str)
-            return latest_version_str
-        except Exception as _:
-            return None
-
-    @classmethod
-    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
-        local_package_version = cls.get_local_module_version(package_name)
-        if local_package_version is None: # unable to determine local package version
-            return False
-
-        latest_version = cls.get_latest_version(package_name, ttl)
-        
-        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
-
-
-if __name__ == "__main__":
-    print("START")
-    print(PackageInfoManager.get_latest_version("edulint"))
-    print("END")
+from typing import Optional, Tuple
+import os
+import json
+from dataclasses import dataclass
+import time
+from pathlib import Path
+
+from platformdirs import PlatformDirs
+from dataclasses_json import dataclass_json
+
+from edulint.versions import pypi_helper
+
+def current_timestamp() -> int:
+    return int(time.time())
+
+
+@dataclass_json
+@dataclass
+class PackageInfo:
+    version: Optional[str] = None
+    last_update_started: int = 0
+
+
+class PackageInfoManager:
+    @staticmethod
+    def get_local_module_version(package_name: str) -> Optional[str]:
+        try:
+            from importlib.metadata import version  # This is only available in Python >= 3.8
+            return version(package_name)
+        except:
+            pass
+
+        try:
+            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
+            return pkg_resources.get_distribution(package_name).version
+        except:
+            pass
+
+        return None
+
+    @staticmethod
+    def _create_json_file_if_doesnt_exist(filepath: str):
+        if os.path.exists(filepath):
+            return
+        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
+        with open(filepath, "w", encoding="utf8") as f:
+            f.write("{}")
+
+    @classmethod
+    def _package_info_path(cls):
+        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
+        cls._create_json_file_if_doesnt_exist(filepath)
+        return filepath 
+
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+
+        package_info = PackageInfo.from_dict(data.get(package_name, {}))
+
+        if version:
+            package_info.version = version
+        if last_update_started:
+            package_info.last_update_started = last_update_started
+            
+        data[package_name] = package_info.to_dict()
+        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
+            json.dump(data, f, indent=4)
+        
+        return package_info
+
+    @classmethod
+    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+            package_info = PackageInfo.from_dict(data.get(package_name, {}))
+            return package_info
+
+    @classmethod
+    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
+        package_info = cls._get_package_info_locally(package_name)
+        if current_timestamp() < package_info.last_update_started + ttl:
+            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
+        try:
+            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
+            versions = pypi_helper.get_versions(package_name)
+            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
+            latest_version_str = str(sorted_versions[-1])
+            cls._save_package_info_locally(package_name, version=latest_version_str)
+            return latest_version_str
+        except Exception as _:
+            return None
+
+    @classmethod
+    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+        local_package_version = cls.get_local_module_version(package_name)
+        if local_package_version is None: # unable to determine local package version
+            return False
+
+        latest_version = cls.get_latest_version(package_name, ttl)
+        if latest_version is None:  # latest version is not known (yet)
+            return False
+
+        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
+
+
+if __name__ == "__main__":
+    print("START")
+    print(PackageInfoManager.get_latest_version("edulint"))
+    print("END")
-- 
2.43.0


From a7eb8043b1dc31d6649dee3a2d553daf8d15c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 20/57] fix: do not fail on symbolic links and paths that are
 not normalized

Paths reported by linters were compared with given paths in different forms.
---
 edulint/linting/linting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 23df21b..d4f0a6f 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -70,9 +70,9 @@ def pylint_to_problem(
             return path
 
         path = Path(path)
-        abs_path = path.resolve()
+        abs_path = Path(os.path.abspath(path))
         for fd in [Path(path) for path in files_or_dirs]:
-            abs_fd = fd.resolve()
+            abs_fd = Path(os.path.abspath(fd))
             if abs_fd == abs_path or abs_fd in abs_path.parents:
                 if fd.is_absolute():
                     return abs_path
@@ -258,13 +258,13 @@ def lint_one(filename: str, config: Tuple[ImmutableConfig, LangTranslations]) ->
 
 
 def sort(files_or_dirs: List[str], problems: List[Problem]) -> List[Problem]:
-    files_or_dirs = [Path(path) for path in files_or_dirs]
+    files_or_dirs = [Path(os.path.abspath(path)) for path in files_or_dirs]
 
     def get_file_or_dir_index(path: str):
         if is_pylint_out_of_file_problem(path):
             return -1
 
-        path = Path(path)
+        path = Path(os.path.abspath(path))
         for i, fd in enumerate(files_or_dirs):
             if fd == path or fd in path.parents:
                 return i
-- 
2.43.0


From 5a9358172bbe172e84697993954ee35ad3a3e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 21/57] fix: report magic comments with the same path as other
 problems

./a.py and a.py were ordered and printed as different files.
---
 edulint/linting/linting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index d4f0a6f..c7b1720 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -151,7 +151,8 @@ def process_results(
 def lint_edulint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
     ignored_infile = set(config[Option.IGNORE_INFILE_CONFIG_FOR])
     if len(ignored_infile) > 0:
-        return report_infile_config(files_or_dirs, ignored_infile, config.enablers)
+        problems = report_infile_config(files_or_dirs, ignored_infile, config.enablers)
+        return [problem.set_path(get_proper_path(problem.path)) for problem in problems]
     return []
 
 
-- 
2.43.0


From b7ab3fa8eba5bdfadf182caf63ec2cab6fc93858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 22/57] fix: do not fail when the local version information
 cannot be read

A damaged versions.json made the background thread end with a traceback.
---
 edulint/versions/version_checker.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 5632b85..a86c24d 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -79,11 +79,11 @@ class PackageInfoManager:
 
     @classmethod
     def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
         try:
+            package_info = cls._get_package_info_locally(package_name)
+            if current_timestamp() < package_info.last_update_started + ttl:
+                return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
             cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
             versions = pypi_helper.get_versions(package_name)
             sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
-- 
2.43.0


From 6f6f1c1746fb121bd21b8ee82335b3ef01b7fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 23/57] fix: recognise all placeholders of translated messages

%i, %#02x, named placeholders and escaped percent signs were expected in the
message literally, so the translation template was used without its values.
---
 edulint/config/language_translations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 14398f7..a7fd39b 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -17,7 +17,12 @@ from edulint.linting import checkers as edulint_checkers
 
 
 def to_pattern(message: str):
-    return re.sub("%[rsd]", "(.*)", re.escape(message), flags=re.IGNORECASE)
+    return "%".join(
+        re.sub(
+            r"%(\\\(\w+\\\))?(\\#)?\d*[rsdix]", "(.*)", re.escape(part), flags=re.IGNORECASE
+        )
+        for part in message.split("%%")
+    )
 
 
 def checker_classes(module):
-- 
2.43.0


From 5d142331577e5cee7e7b57f10bc4201468f7bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 24/57] fix: report groups with arguments for edulint itself

---
 edulint/config/option_sets.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edulint/config/option_sets.py b/edulint/config/option_sets.py
index e0269dc..6ec54ac 100644
--- a/edulint/config/option_sets.py
+++ b/edulint/config/option_sets.py
@@ -3,6 +3,7 @@ from dataclasses import dataclass, field
 from loguru import logger
 
 from edulint.linters import Linter
+from edulint.options import Option
 from edulint.config.utils import config_file_val_to_str
 from edulint.option_parses import OPTION_SETS_LABEL
 
@@ -39,11 +40,15 @@ def parse_option_sets(raw_option_sets: Any) -> OptionSets:
         option_set = OptionSet()
         for linter_str, translated in to.items():
             linter = Linter.safe_from_name(linter_str)
-            if linter is None:
+            if linter is None or Option.safe_from_name(linter.to_name()) is None:
                 logger.warning(
                     "invalid value {linter} where one of {linters} is expected",
                     linter=linter_str,
-                    linters=", ".join(linter.to_name() for linter in Linter),
+                    linters=", ".join(
+                        linter.to_name()
+                        for linter in Linter
+                        if Option.safe_from_name(linter.to_name()) is not None
+                    ),
                 )
                 continue
 
-- 
2.43.0


From 1354e9b42363cf22d1b99f0979fc26e4ec898cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 25/57] fix: run unreachable-else and use-literal-letter when
 enabled alone

visit_if did not list unreachable-else and visit_compare listed a message
that does not exist instead of use-literal-letter, so the checks were not
carried out unless an unrelated check of the same visit was enabled.
---
 edulint/linting/checkers/local_defects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 983c7ce..b649ad9 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -724,7 +724,9 @@ class Local(BaseChecker):
         self._check_loop_else(node.orelse, "for")
         self._check_iteration_count(node)
 
-    @only_required_for_messages("use-elif", "redundant-elif", "use-early-return")
+    @only_required_for_messages(
+        "use-elif", "redundant-elif", "unreachable-else", "use-early-return"
+    )
     def visit_if(self, node: nodes.If) -> None:
         self._check_else_if(node)
         self._check_redundant_elif(node)
@@ -749,7 +751,7 @@ class Local(BaseChecker):
 
     @only_required_for_messages(
         "no-is-bool",
-        "magical-constant-in-ord-compare",
+        "use-literal-letter",
         "in-range-instead-of-compare-small",
         "in-range-instead-of-compare-step",
         "in-range-instead-of-compare",
-- 
2.43.0


From 7cad15013d75c1060df9e6054b9e3094cccb3e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 26/57] fix: do not fail on comparing ord() with a constant
 that is not an integer

Comparing with a string or float constant raised a TypeError in the check
for magical constants, so the rest of the file was not checked.
---
 edulint/linting/checkers/local_defects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index b649ad9..89ef6a2 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -373,8 +373,8 @@ class Local(BaseChecker):
     def _is_preffered(self, value: int) -> bool:
         return chr(value) in "azAZ09"
 
-    def _in_suggestable_range(self, value: int) -> bool:
-        return ord(" ") <= value < 127  # chr(127) is weird
+    def _in_suggestable_range(self, value: Any) -> bool:
+        return isinstance(value, int) and ord(" ") <= value < 127  # chr(127) is weird
 
     def _check_use_ord_letter(self, node: nodes.BinOp) -> None:
         def add_message(param: nodes.NodeNG, value: int, suggestion: str) -> None:
-- 
2.43.0


From 4de39735ae27a625f60d7e40d9dc267d46282d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 27/57] fix: use current names of renamed checks in packaged
 configurations

cs0, cs1 and webtiger enabled for-target-subscript and remove-for, which no
longer exist, so the checks now called invalid-for-target and
at-most-one-iteration-for-loop were silently not run.
---
 edulint/config/files/cs0.toml      | 4 ++--
 edulint/config/files/cs1.toml      | 2 +-
 edulint/config/files/webtiger.toml | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edulint/config/files/cs0.toml b/edulint/config/files/cs0.toml
index 1348201..e25fa63 100644
--- a/edulint/config/files/cs0.toml
+++ b/edulint/config/files/cs0.toml
@@ -38,7 +38,7 @@ enable = [
     "dangerous-default-value",
     "comparison-of-constants",
     "comparison-with-itself",
-    "remove-for",
+    "at-most-one-iteration-for-loop",
     "no-global-vars",
     "simplifiable-condition",
     "condition-evals-to-constant",
@@ -46,7 +46,7 @@ enable = [
     "non-ascii-name",
     "no-self-argument",
     "comparison-with-callable",
-    "for-target-subscript",
+    "invalid-for-target",
     "function-redefined",
     "missing-parentheses-for-call-in-test",
     "duplicate-key"
diff --git a/edulint/config/files/cs1.toml b/edulint/config/files/cs1.toml
index 99a989d..56595cc 100644
--- a/edulint/config/files/cs1.toml
+++ b/edulint/config/files/cs1.toml
@@ -57,7 +57,7 @@ enable = [
     "non-ascii-name",
     "no-self-argument",
     "comparison-with-callable",
-    "for-target-subscript",
+    "invalid-for-target",
     "function-redefined",
     "missing-parentheses-for-call-in-test",
     "method-hidden",
diff --git a/edulint/config/files/webtiger.toml b/edulint/config/files/webtiger.toml
index 8856382..7aa47e1 100644
--- a/edulint/config/files/webtiger.toml
+++ b/edulint/config/files/webtiger.toml
@@ -8,7 +8,7 @@ enable = [
     "no-loop-else",             # Do not use %s loop with else.
     "pointless-statement",      # Statement seems to have no effect
     "self-assigning-variable",  # Assigning the same variable %r to itself
-    "remove-for",               # The for loop makes %s.
+    "at-most-one-iteration-for-loop",               # The for loop makes %s.
     "non-ascii-name",           # %s name "%s" contains a non-ASCII character, consider renaming it.
     "comparison-with-callable", # Comparing against a callable, did you omit the parenthesis?
     "function-redefined",       # %s already defined line %s
-- 
2.43.0


From aa2bf3209c81cb9f98d4fa209f03156951144058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 28/57] fix: do not look for implicit configuration in
 directories that are not parents of the file

The path was made absolute without resolving '..', so a file given as
../other/file.py was also configured by the working directory's edulint.toml.
---
 edulint/config/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index f99aab3..3cfd033 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -354,7 +354,7 @@ def resolve_ignore_infile_config(parsed: List[UnprocessedArg], config: Config) -
 
 def search_for_config_in_parents(path):
     path = Path(path)
-    path = (path.parent if path.is_file() else path).absolute()
+    path = Path(os.path.abspath(path.parent if path.is_file() else path))
     while path.parent != path:
         for name in IMPLICIT_CONFIG_FILENAMES:
             if (path / name).is_file():
-- 
2.43.0


From 69ca501aa9e7e36ff9d93a78be296da7640ac58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 29/57] fix: look for implicit configuration in the root
 directory too

---
 edulint/config/config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 3cfd033..64b246b 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -355,11 +355,10 @@ def resolve_ignore_infile_config(parsed: List[UnprocessedArg], config: Config) -
 def search_for_config_in_parents(path):
     path = Path(path)
     path = Path(os.path.abspath(path.parent if path.is_file() else path))
-    while path.parent != path:
+    for directory in (path, *path.parents):
         for name in IMPLICIT_CONFIG_FILENAMES:
-            if (path / name).is_file():
-                return str(path / name)
-        path = path.parent
+            if (directory / name).is_file():
+                return str(directory / name)
     return None
 
 
-- 
2.43.0


From 54635c37388becedcc2acf294eb29ecf50c0c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 30/57] fix: keep the cached copy of a remote configuration
 when replacing it is interrupted

The copy was truncated before the new content was written, so a run that was
interrupted, or that read at the same time, left or saw a part of the file,
which was then used as the configuration when there was no network.
---
 edulint/config/file_config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index da5558d..d2afda4 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -4,6 +4,7 @@ import os
 from typing import Dict, Any, Optional
 import hashlib
 import json
+import threading
 import time
 from loguru import logger
 from enum import Enum, auto
@@ -194,9 +195,13 @@ class CachedHTTPGet:
     @classmethod
     def _write_version_to_disk(cls, source: str, content: str):
         try:
-            with open(cls._get_filepath_from_source(source), "w", encoding="utf8") as f:
+            filepath = cls._get_filepath_from_source(source)
+            temporary = filepath.with_suffix(f".{os.getpid()}-{threading.get_ident()}.tmp")
+            with open(temporary, "w", encoding="utf8") as f:
                 # security: writing arbitrary content from web is not great, but at least it's written as text
                 f.write(content)
+            # replaced at once, an older copy remains valid when writing is interrupted
+            os.replace(temporary, filepath)
             with open(cls._get_metadata_filepath(source), "w", encoding="utf8") as f:
                 json.dump(
                     {
-- 
2.43.0


From 1f6c9815f1f0a439afd96769ecf5a17b38a6075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 31/57] fix: keep the downloaded explanations when replacing
 them is interrupted

The file was truncated before the new explanations were written, so a run that
ended in the meantime (or one reading it at the same time) was left with only
a part of the explanations, which was then used as if it was complete.
---
 edulint/explanations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index 0efbef1..5bb58b6 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -1,6 +1,6 @@
 from typing import Dict
 import os
-from threading import Thread
+from threading import Thread, get_ident
 from pathlib import Path
 from typing import Optional, Dict
 import dbm
@@ -75,8 +75,11 @@ def _thread_update_explanations(ttl: int = 600):
         if resp.status_code != 200:
             return
 
-        with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "w", encoding="utf8") as f:
+        temporary = f"{EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH}.{os.getpid()}-{get_ident()}.tmp"
+        with open(temporary, "w", encoding="utf8") as f:
             f.write(resp.text)
+        # replaced at once, so that no one ever reads only a part of the explanations
+        os.replace(temporary, EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
     except Exception as e:
         logger.debug(f"Update of explanations failed with {e}. This can ocassionaly hapen for some processes due to race condition.")
 
-- 
2.43.0


From 267425280c5af89d65e92afb79d56a3505c86ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 32/57] fix: do not take chained comparisons for negations of
 each other

'a < b < c' and 'a >= b >= c' can both be false, yet the latter was reported
as an elif that could be replaced with else.
---
 edulint/linting/analyses/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 2a86d0d..8b5f0ac 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -695,7 +695,7 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         if negated_rt and ops_match(lt, rt, lambda op: op):
             return all_are_negations(to_values(lt), to_values(rt), negated_rt)
 
-        if not negated_rt and ops_match(lt, rt, lambda op: NEGATED_OP[op]):
+        if not negated_rt and len(lt.ops) == 1 and ops_match(lt, rt, lambda op: NEGATED_OP[op]):
             return all_are_negations(to_values(lt), to_values(rt), not negated_rt)
 
         if not negated_rt and mod_two_negation(lt, rt):
-- 
2.43.0


From 96e598a71baea8a23c694aa9acf335ab9c75ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 33/57] fix: take tests of parity for negations only if both
 remainders are known

'x % 2 == 0' and 'x % 2 == y' were considered to be negations of each other.
---
 edulint/linting/analyses/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 8b5f0ac..ca62098 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -673,7 +673,10 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         lt_mod, lt_val = (lt_lt, lt_rt) if is_mod_two(lt_lt) else (lt_rt, lt_lt)
         rt_mod, rt_val = (rt_lt, rt_rt) if is_mod_two(rt_lt) else (rt_rt, rt_lt)
 
-        return have_same_value(lt_mod.left, rt_mod.left) and not have_same_value(lt_val, rt_val)
+        return have_same_value(lt_mod.left, rt_mod.left) and {
+            get_const_value(lt_val),
+            get_const_value(rt_val),
+        } == {0, 1}
 
     lt, negated_rt = strip_nots(lt, negated_rt)
     rt, negated_rt = strip_nots(rt, negated_rt)
-- 
2.43.0


From f2ce6c5412a08dfbfd23e62b61afd199365b93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 34/57] fix: do not let the solver divide by negative integers

Z3 rounds such quotients up while Python rounds them down, so conditions like
'x == 7 and x // -2 == -4' were reported to be always false.
---
 edulint/linting/analyses/z3_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index 3bb90a9..d51efd9 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -321,7 +321,9 @@ def convert_condition_to_z3_expression(
             modulo = get_const_value(node.right)
             z3_expr = left % get_const_value(node.right) if modulo > 1 else None
         elif node.op == "//":
-            z3_expr = left / get_const_value(node.right)
+            divisor = get_const_value(node.right)
+            # for negative divisors, Z3 rounds up and Python down
+            z3_expr = left / divisor if divisor > 0 else None
         elif node.op == "/":
             z3_expr = left / float(get_const_value(node.right))
         elif node.op == "+":
-- 
2.43.0


From ddeef7dcee5bd6c7f447ff723ae260e8493021a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 35/57] fix: do not hand numbers the solver cannot represent to
 it

Infinite constants (1e999), divisors too large for a float and absolute
values of what cannot be expressed crashed the checks that use the solver.
---
 edulint/linting/analyses/z3_analysis.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index d51efd9..f1414b4 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
-from typing import List, Optional, Dict, Tuple, TYPE_CHECKING
+import math
+from typing import List, Optional, Dict, Tuple, Union, TYPE_CHECKING
 
 from astroid import nodes
 from edulint.linting.analyses.utils import get_const_value, is_integer, is_number, is_float
@@ -202,6 +203,14 @@ def _convert_to_bool_if_necessary(
     return z3_node_representation, False
 
 
+def _convert_real_to_z3(value: Union[int, float]) -> Optional[z3.ExprRef]:
+    # Z3 has no infinities and integers may be too large for floats
+    if isinstance(value, float) and not math.isfinite(value):
+        return None
+
+    return z3.RealVal(value)
+
+
 def _convert_const_to_z3(node: nodes.Const) -> Optional[z3.ExprRef]:
     if isinstance(node.value, bool):
         return z3.BoolVal(node.value)
@@ -210,7 +219,7 @@ def _convert_const_to_z3(node: nodes.Const) -> Optional[z3.ExprRef]:
         return z3.IntVal(node.value)
 
     if isinstance(node.value, float):
-        return z3.RealVal(node.value)
+        return _convert_real_to_z3(node.value)
 
     return None
 
@@ -239,6 +248,10 @@ def convert_condition_to_z3_expression(
         expr, conversion_to_bool = convert_condition_to_z3_expression(
             node.args[0], initialized_variables, node
         )
+
+        if expr is None:
+            return None, False
+
         expr, bool_conversion = _convert_to_bool_if_necessary(node, parent, z3.Abs(expr))
         return expr, bool_conversion or conversion_to_bool
 
@@ -325,7 +338,8 @@ def convert_condition_to_z3_expression(
             # for negative divisors, Z3 rounds up and Python down
             z3_expr = left / divisor if divisor > 0 else None
         elif node.op == "/":
-            z3_expr = left / float(get_const_value(node.right))
+            real_divisor = _convert_real_to_z3(get_const_value(node.right))
+            z3_expr = left / real_divisor if real_divisor is not None else None
         elif node.op == "+":
             z3_expr = left + right
         elif node.op == "-":
-- 
2.43.0


From 9c369f12b637b84727088142337c56b000d3aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 36/57] fix: do not compute with constants of the analysed code
 that are not numbers

A loop variable changed by a string or None, or such a constant in the bounds
of a range, crashed the check.
---
 edulint/linting/checkers/local_defects.py | 13 +++++++++++--
 edulint/linting/checkers/unsuited_loop.py |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 89ef6a2..ed2c54a 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -529,12 +529,21 @@ class Local(BaseChecker):
                 return var, const
 
             if isinstance(node, nodes.BinOp) and (node.op == "+" or node.op == "-"):
-                if is_var(node.left) and isinstance(node.right, nodes.Const):
+                if (
+                    is_var(node.left)
+                    and isinstance(node.right, nodes.Const)
+                    and is_integer(node.right.value)
+                ):
                     var = node.left.as_string()
                     const = node.right.value if node.op == "+" else -node.right.value
                     return var, const
 
-                if is_var(node.right) and isinstance(node.left, nodes.Const) and node.op == "+":
+                if (
+                    is_var(node.right)
+                    and isinstance(node.left, nodes.Const)
+                    and is_integer(node.left.value)
+                    and node.op == "+"
+                ):
                     var = node.right.as_string()
                     const = node.left.value
                     return var, const
diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 495c925..278a2f3 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -128,7 +128,7 @@ class UnsuitedLoop(BaseChecker):
                         const = get_const_value(binop.right)
                     if binop.right.as_string() == node.as_string():
                         const = get_const_value(binop.left)
-            if const is None:
+            if not isinstance(const, (int, float)):
                 return None
 
             return const if op == "+" else -const
-- 
2.43.0


From 1d6d1c35e39c07bcdba691f64a7298d908d1fd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 37/57] fix: do not crash on the product of two list displays

---
 edulint/linting/checkers/local_defects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index ed2c54a..df074f2 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -312,12 +312,11 @@ class Local(BaseChecker):
                 and elem.func.name in ("list", "set", "dict")
             )
 
-        if node.op != "*" or (
-            not isinstance(node.left, nodes.List) and not isinstance(node.right, nodes.List)
+        if node.op != "*" or isinstance(node.left, nodes.List) == isinstance(
+            node.right, nodes.List
         ):
             return
 
-        assert not isinstance(node.left, nodes.List) or not isinstance(node.right, nodes.List)
         lst = node.left if isinstance(node.left, nodes.List) else node.right
 
         if any(is_mutable(elem) for elem in lst.elts):
-- 
2.43.0


From ba794bbe3f57a10afb74681d301cc180dbde3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:50 +0000
Subject: [PATCH 38/57] fix: recognise variable parts of messages that contain
 line breaks

---
 edulint/config/language_translations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index a7fd39b..94f1ba6 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -103,7 +103,7 @@ class Translation:
         if pattern is None or "(.*)" not in pattern:
             return self.translation
 
-        match = re.match(pattern, message, flags=re.IGNORECASE)
+        match = re.match(pattern, message, flags=re.IGNORECASE | re.DOTALL)
         if not match:
             return self.translation
         try:
-- 
2.43.0


From cbdc73671d032ecf8a187e106e452f6af719a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:50 +0000
Subject: [PATCH 39/57] fix: recognise variable parts of all flake8 messages

---
 edulint/config/raw_flake8_patterns.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/edulint/config/raw_flake8_patterns.py b/edulint/config/raw_flake8_patterns.py
index 86c6ce8..5763ee6 100644
--- a/edulint/config/raw_flake8_patterns.py
+++ b/edulint/config/raw_flake8_patterns.py
@@ -6,7 +6,7 @@ FLAKE8 = {
     "F404": "future import(s) name after other statements",
     "F405": "%r may be undefined, or defined from star imports: %s",
     "F406": "'from %s import *' only allowed at module level",
-    "F407": "an undefined __future__ feature name was imported",
+    "F407": "future feature %s is not defined",
     "F501": "'...' %% ... has invalid format string: %s",
     "F502": "'...' %% ... expected mapping but got sequence",
     "F503": "'...' %% ... expected sequence but got mapping",
@@ -46,10 +46,12 @@ FLAKE8 = {
     "F823": "local variable %r %s referenced before assignment",
     "F831": "duplicate argument %r in function definition",
     "F841": "local variable %r is assigned to but never used",
+    "F842": "local variable %r is annotated but never used",
     "F901": "'raise NotImplemented' should be 'raise NotImplementedError'",
     # pycodestyle
     "E101": "indentation contains mixed spaces and tabs",
     "E111": "indentation is not a multiple of %d",
+    "E114": "indentation is not a multiple of %d (comment)",
     "E112": "expected an indented block",
     "W191": "indentation contains tabs",
     "W291": "trailing whitespace",
@@ -88,6 +90,7 @@ FLAKE8 = {
     "E225": "missing whitespace around operator",
     "E242": "tab after '%s'",
     "E241": "multiple spaces after '%s'",
+    "E231": "missing whitespace after %s",
     "E251": "unexpected spaces around keyword / parameter equals",
     "E252": "missing whitespace around parameter equals",
     "E261": "at least two spaces before inline comment",
@@ -104,6 +107,7 @@ FLAKE8 = {
     "E502": "the backslash is redundant between brackets",
     "W503": "line break before binary operator",
     "W504": "line break after binary operator",
+    "E711": "comparison to None should be 'if cond is%s None:'",
     "E712": "comparison to %s should be 'if%s cond:'",
     "E713": "test for membership should be 'not in'",
     "E714": "test for object identity should be 'is not'",
@@ -114,4 +118,10 @@ FLAKE8 = {
     "E741": "ambiguous variable name '%s'",
     "W605": "invalid escape sequence '\\%s'",
     "W505": "doc line too long (%d > %d characters)",
+    "E901": "%s: %s",
+    "E902": "%s: %s",
+    # flake8
+    "E999": "%s: %s",
+    # mccabe
+    "C901": "%r is too complex (%d)",
 }
-- 
2.43.0


From 485b468f6f247362efa545b7ede5163de49c8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:50 +0000
Subject: [PATCH 40/57] fix: recognise variable parts of messages of pylint
 itself and its extensions

---
 edulint/config/language_translations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 94f1ba6..68e7d72 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -8,6 +8,8 @@ import re
 from loguru import logger
 
 import pylint
+import pylint.extensions
+import pylint.lint
 from pylint.checkers import BaseChecker
 
 from edulint.option_parses import LANG_TRANSLATED_EXTRACTS_LABEL
@@ -43,8 +45,9 @@ def get_edulint_patterns():
 
 def get_pylint_patterns():
     messages = {}
-    for checker in checker_classes(pylint.checkers):
-        messages.update({code: info[0] for code, info in checker.msgs.items()})
+    for package in (pylint.checkers, pylint.extensions, pylint.lint):
+        for checker in checker_classes(package):
+            messages.update({code: info[0] for code, info in checker.msgs.items()})
 
     return messages
 
-- 
2.43.0


From 62132037ec63c508da7e894c76b7b50663196419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:50 +0000
Subject: [PATCH 41/57] fix: recognise variable parts of messages worded by
 edulint

---
 edulint/config/language_translations.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 68e7d72..8f855df 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -53,10 +53,16 @@ def get_pylint_patterns():
 
 
 def get_patterns():
-    return {
-        code: to_pattern(message)
-        for code, message in {**get_pylint_patterns(), **get_edulint_patterns(), **FLAKE8}.items()
+    messages = {
+        **get_pylint_patterns(),
+        **get_edulint_patterns(),
+        **FLAKE8,
+        "EDL001": "Forbidden magic comment '%s'",
     }
+    patterns = {code: to_pattern(message) for code, message in messages.items()}
+    # single-character names are reported with a reworded message
+    patterns["C0104"] = r'Disallowed (?:single-character variable )?name "(.*)"'
+    return patterns
 
 
 @dataclass
-- 
2.43.0


From f0e81da5923c970a8ef484e0b2dac563f69b7254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 42/57] fix: read the whole expression from messages about
 repeated operations

---
 edulint/linting/tweakers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/tweakers.py b/edulint/linting/tweakers.py
index 7169472..d9c7275 100644
--- a/edulint/linting/tweakers.py
+++ b/edulint/linting/tweakers.py
@@ -134,7 +134,7 @@ TWEAKERS = {
     ),
     (Linter.PYLINT, "R6607"): Tweaker(  # no-repeated-op
         set([Option.SET_GROUPS]),
-        re.compile(r"^Use [^ ]* instead of repeated [^ ]* in ([^\.]*)."),
+        re.compile(r"^Use [^ ]* instead of repeated [^ ]* in (.*)\.$", re.DOTALL),
         no_repeated_op_keep,
     ),
     (Linter.PYLINT, "C0325"): Tweaker(  # superfluous-parens
-- 
2.43.0


From d1b2dce3c067cf9e89b4b1e692f398085d3b5f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 43/57] fix: determine configurations of a directory's files in
 a fixed order

The order (and with it the order in which files are handed to the
linters and configurations are listed in JSON output) followed the order
in which the file system happens to list the directory.
---
 edulint/config/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 64b246b..6d2e35f 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -546,7 +546,7 @@ def _parse_infile_configs(
             infile_config = parse_infile_config(path, option_parses)
             return {infile_config.get_ordered_args(): (infile_config, [path])}
 
-        result = aggregate_subresults([os.path.join(path, name) for name in os.listdir(path)])
+        result = aggregate_subresults([os.path.join(path, name) for name in sorted(os.listdir(path))])
 
         if len(result) != 1:
             return result
-- 
2.43.0


From c04371384f499901aeb107183db674d580c91866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 44/57] fix: names bound by match patterns, with tuples and
 type aliases no longer abort the analysis of the file

---
 edulint/linting/analyses/data_dependency.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 6edfadf..081c8f0 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -599,7 +599,10 @@ def get_assigned_expressions(
         else:
 
             parents = [def_event.node]
-            while not isinstance(parent, _ASSIGNING_EXPRESSIONS + _ASSIGNING_ITERS):
+            while (
+                not isinstance(parent, _ASSIGNING_EXPRESSIONS + _ASSIGNING_ITERS)
+                and not parent.is_statement
+            ):
                 parents.append(parent)
                 parent = parent.parent
             assigning = parent
@@ -607,6 +610,10 @@ def get_assigned_expressions(
             if isinstance(assigning, _ASSIGNING_ITERS):
                 if include_destructuring:
                     yield assigning.iter
+            elif not isinstance(assigning, _ASSIGNING_EXPRESSIONS):
+                # bound by a part of with, match or type statement, not by an expression
+                if include_destructuring and type(assigning) in include_nodes:
+                    yield assigning
             else:
                 expr = assigning.value
 
-- 
2.43.0


From 139d023975c5af428237d3bda40fce7e7e008560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 45/57] fix: include the parts of async for, async with and
 try-except* statements in the control-flow graph

---
 edulint/linting/analyses/cfg/utils.py   |  2 +-
 edulint/linting/analyses/cfg/visitor.py | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/cfg/utils.py b/edulint/linting/analyses/cfg/utils.py
index 90fe845..80934db 100644
--- a/edulint/linting/analyses/cfg/utils.py
+++ b/edulint/linting/analyses/cfg/utils.py
@@ -417,7 +417,7 @@ def get_stmt_locs(loc: CFGLoc) -> Tuple[Optional[CFGLoc], Optional[CFGLoc]]:
     ):
         return None, parent.cfg_loc
 
-    if isinstance(parent, nodes.Try) and loc.node == parent.body[0]:
+    if isinstance(parent, (nodes.Try, nodes.TryStar)) and loc.node == parent.body[0]:
         return loc, parent.cfg_loc
 
     return loc, None
diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 1a3c32c..05e04f3 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -293,6 +293,9 @@ class CFGVisitor:
         self._current_cfg.link_or_merge(end_else, after_for_block)
         self._current_block = after_for_block
 
+    def visit_asyncfor(self, node: nodes.AsyncFor) -> None:
+        self.visit_for(node)
+
     def visit_break(self, node: nodes.Break) -> None:
         self._visit_jump(node)
 
@@ -328,7 +331,7 @@ class CFGVisitor:
         unreachable_block = self._current_cfg.create_block()
         self._current_block = unreachable_block
 
-    def visit_try(self, node: nodes.Try) -> None:
+    def visit_try(self, node: Union[nodes.Try, nodes.TryStar]) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
         if self._current_cfg is None:
             return
@@ -410,6 +413,9 @@ class CFGVisitor:
         self._current_cfg.link_or_merge(finally_block, end_block)
         self._current_block = end_block
 
+    def visit_trystar(self, node: nodes.TryStar) -> None:
+        self.visit_try(node)
+
     def visit_with(self, node: nodes.With) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
         if self._current_cfg is None:
@@ -424,6 +430,9 @@ class CFGVisitor:
         for child in node.body:
             child.accept(self)
 
+    def visit_asyncwith(self, node: nodes.AsyncWith) -> None:
+        self.visit_with(node)
+
 
 def _extract_exceptions(node: nodes.ExceptHandler) -> List[str]:
     """A helper method that returns a list of all the exceptions handled by this except block as a
-- 
2.43.0


From 27be1485ec0ec3e5503ffa80325d6e4fc1edc912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 46/57] fix: include finally blocks in the control-flow graph
 and lead jumps through them

---
 edulint/linting/analyses/cfg/visitor.py | 28 ++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 05e04f3..e7d191e 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -350,6 +350,14 @@ class CFGVisitor:
         self._control_boundaries.append((node, {nodes.Raise.__name__: end_block}))
         cbs_added = 1
 
+        # Jumps out of the statement go through the finally block
+        jump_blocks = {}
+        if node.finalbody != []:
+            for jump in (nodes.Return, nodes.Break, nodes.Continue, nodes.Raise):
+                jump_blocks[jump.__name__] = self._current_cfg.create_block()
+            self._control_boundaries.append((node, jump_blocks))
+            cbs_added += 1
+
         after_body = []
         # Construct blocks in reverse to give precedence to the first block in overlapping except
         # branches
@@ -410,7 +418,25 @@ class CFGVisitor:
 
         self._current_cfg.link_or_merge(temp, end_body)
         self._current_cfg.multiple_link_or_merge(end_body, after_body)
-        self._current_cfg.link_or_merge(finally_block, end_block)
+
+        after_finally = [end_block]
+        for jump, jump_block in jump_blocks.items():
+            jumped = jump_block.predecessors != []
+            self._current_cfg.link_or_merge(jump_block, finally_block)
+            if not jumped:
+                continue
+            for _boundary, exits in reversed(self._control_boundaries):
+                if jump in exits:
+                    after_finally.append(exits[jump])
+                    break
+
+        self._current_block = finally_block
+        for child in node.finalbody:
+            child.accept(self)
+        if len(after_finally) == 1:
+            self._current_cfg.link_or_merge(self._current_block, end_block)
+        elif not self._current_block.is_jump():
+            self._current_cfg.multiple_link_or_merge(self._current_block, after_finally)
         self._current_block = end_block
 
     def visit_trystar(self, node: nodes.TryStar) -> None:
-- 
2.43.0


From 76835c3203a2192efb90b514e466e77e07462896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 47/57] fix: include the parts of match statements in the
 control-flow graph

---
 edulint/linting/analyses/cfg/graph.py   |  3 +++
 edulint/linting/analyses/cfg/utils.py   |  8 ++++---
 edulint/linting/analyses/cfg/visitor.py | 32 +++++++++++++++++++++++++
 3 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/analyses/cfg/graph.py b/edulint/linting/analyses/cfg/graph.py
index f734422..5cd1ded 100644
--- a/edulint/linting/analyses/cfg/graph.py
+++ b/edulint/linting/analyses/cfg/graph.py
@@ -233,6 +233,9 @@ class CFGBlock:
             first_body_loc = statement.body[0].cfg_loc
             first_body_node = first_body_loc.block.locs[first_body_loc.pos].node
             assert self.locs[pos].node in (statement.name, first_body_node)
+        elif isinstance(statement, nodes.Match):
+            pos = len(self.locs) - 1
+            assert self.locs[pos].node == statement.subject
         elif isinstance(statement, nodes.With):
             pos = len(self.locs)
         else:
diff --git a/edulint/linting/analyses/cfg/utils.py b/edulint/linting/analyses/cfg/utils.py
index 80934db..6d252e3 100644
--- a/edulint/linting/analyses/cfg/utils.py
+++ b/edulint/linting/analyses/cfg/utils.py
@@ -400,8 +400,10 @@ def get_stmt_locs(loc: CFGLoc) -> Tuple[Optional[CFGLoc], Optional[CFGLoc]]:
     """
     parent = loc.node.parent
 
-    if isinstance(loc.node, nodes.Arguments) or (
-        isinstance(parent, nodes.For) and loc.node == parent.target
+    if (
+        isinstance(loc.node, nodes.Arguments)
+        or (isinstance(parent, nodes.For) and loc.node == parent.target)
+        or (isinstance(parent, nodes.MatchCase) and loc.node in (parent.pattern, parent.guard))
     ):
         return None, None
 
@@ -414,7 +416,7 @@ def get_stmt_locs(loc: CFGLoc) -> Tuple[Optional[CFGLoc], Optional[CFGLoc]]:
 
     if (isinstance(parent, (nodes.If, nodes.While)) and loc.node == parent.test) or (
         isinstance(parent, nodes.For) and loc.node == parent.iter
-    ):
+    ) or (isinstance(parent, nodes.Match) and loc.node == parent.subject):
         return None, parent.cfg_loc
 
     if isinstance(parent, (nodes.Try, nodes.TryStar)) and loc.node == parent.body[0]:
diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index e7d191e..4ef917f 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -439,6 +439,33 @@ class CFGVisitor:
             self._current_cfg.multiple_link_or_merge(self._current_block, after_finally)
         self._current_block = end_block
 
+    def visit_match(self, node: nodes.Match) -> None:
+        # When only creating cfgs for functions, _current_cfg will only be None outside of functions
+        if self._current_cfg is None:
+            return
+
+        self._current_block.add_statement(node.subject)
+        self._current_block.add_CF_statement(node)
+
+        after_match_block = self._current_cfg.create_block()
+        old_curr = self._current_block
+        for case in node.cases:
+            case_block = self._current_cfg.create_block(old_curr)
+            case_block.add_statement(case.pattern)
+            if case.guard is not None:
+                case_block.add_statement(case.guard)
+
+            self._current_block = self._current_cfg.create_block(case_block)
+            for child in case.body:
+                child.accept(self)
+            self._current_cfg.link_or_merge(self._current_block, after_match_block)
+            old_curr = case_block
+
+        last_case = node.cases[-1]
+        if last_case.guard is not None or not _is_irrefutable(last_case.pattern):
+            self._current_cfg.link_or_merge(old_curr, after_match_block)
+        self._current_block = after_match_block
+
     def visit_trystar(self, node: nodes.TryStar) -> None:
         self.visit_try(node)
 
@@ -460,6 +487,11 @@ class CFGVisitor:
         self.visit_with(node)
 
 
+def _is_irrefutable(pattern: nodes.Pattern) -> bool:
+    """Returns whether the pattern of a case matches any value (i.e. case _: or case name:)."""
+    return isinstance(pattern, nodes.MatchAs) and pattern.pattern is None
+
+
 def _extract_exceptions(node: nodes.ExceptHandler) -> List[str]:
     """A helper method that returns a list of all the exceptions handled by this except block as a
     list of strings.
-- 
2.43.0


From 07a39e6be04185d1ed0d511da1b822ec98e1d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 48/57] fix: keep a while loop that starts an else or except
 block connected to the rest of the try statement

---
 edulint/linting/analyses/cfg/visitor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 4ef917f..3cd475a 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -385,9 +385,8 @@ class CFGVisitor:
             if len(h.locs) == 0:
                 # h was overtaken by link_or_merge
                 assert len(handler.body) > 0
-                handler.body[0].cfg_loc.block.add_CF_statement(handler)
-            else:
-                h.add_CF_statement(handler)
+                h = handler.body[0].cfg_loc.block
+            h.add_CF_statement(handler)
 
             self._current_cfg.link_or_merge(end_handler, finally_block)
             after_body.append(h)
@@ -396,9 +395,10 @@ class CFGVisitor:
             after_body.append(finally_block)
         else:
             self._current_block = self._current_cfg.create_block()
-            after_body.append(self._current_block)
             for child in node.orelse:
                 child.accept(self)
+            # do not use the created block, because it may be overtaken by link_or_merge
+            after_body.append(node.orelse[0].cfg_loc.block)
             self._current_cfg.link_or_merge(self._current_block, finally_block)
 
         # Construct the try body so reset current block to this node's block
-- 
2.43.0


From ddfe359fbb7b350e7e42f7f83b5e66d7231580c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:13 +0000
Subject: [PATCH 49/57] fix: connect the body of a class to the start of its
 control-flow graph

---
 edulint/linting/analyses/cfg/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 3cd475a..6230ff8 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -96,7 +96,7 @@ class CFGVisitor:
         self.cfg_count += 1
         self._current_cfg = self.cfgs[node]
 
-        self._current_block = self._current_cfg.create_block()
+        self._current_block = self._current_cfg.start
 
         for child in node.body:
             if functions_to_render:
-- 
2.43.0


From 94344a98de048e2e20a4ba38f5d811e3d421dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:13 +0000
Subject: [PATCH 50/57] fix: reach exception handlers also when the body of try
 ends with a jump

---
 edulint/linting/analyses/cfg/visitor.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 6230ff8..c51618a 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -4,7 +4,7 @@ from typing import Any, Dict, List, Optional, Tuple, Union
 
 from astroid import nodes
 
-from edulint.linting.analyses.cfg.graph import CFGBlock, ControlFlowGraph
+from edulint.linting.analyses.cfg.graph import CFGBlock, CFGEdge, ControlFlowGraph
 
 
 class CFGVisitor:
@@ -390,6 +390,7 @@ class CFGVisitor:
 
             self._current_cfg.link_or_merge(end_handler, finally_block)
             after_body.append(h)
+        handler_blocks = after_body[:]
 
         if node.orelse == []:
             after_body.append(finally_block)
@@ -416,6 +417,13 @@ class CFGVisitor:
         for _ in range(cbs_added):
             self._control_boundaries.pop()
 
+        if end_body.locs == [] and end_body.predecessors == []:
+            # the end of the body is never reached, but an exception may be raised before that
+            start_body = node.body[0].cfg_loc.block
+            for h in handler_blocks:
+                if all(edge.target is not h for edge in start_body.successors):
+                    CFGEdge(start_body, h)
+
         self._current_cfg.link_or_merge(temp, end_body)
         self._current_cfg.multiple_link_or_merge(end_body, after_body)
 
-- 
2.43.0


From 79e8f6625e4fe818399f965d81d3705bf41b9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:35 +0000
Subject: [PATCH 51/57] fix: resolve names to the scope which binds them

---
 edulint/linting/analyses/variable_scope.py | 75 +++++++++++++++++-----
 1 file changed, 59 insertions(+), 16 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 465ef7f..eeaaf7e 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -43,6 +43,28 @@ class UnknowableLocalsException(Exception):
     pass
 
 
+def is_bound_in(name: VarName, scope: ScopeNode) -> bool:
+    # attributes each module has are not bound by any code
+    return any(
+        not isinstance(node, (nodes.Const, nodes.List)) for node in scope.locals.get(name, [])
+    )
+
+
+def evaluated_inside(scope: ScopeNode, path: List[nodes.NodeNG]) -> bool:
+    """Decides whether the first node on the path, which leads to scope, is evaluated in scope itself,
+    unlike decorators, base classes, annotations, default values or what a comprehension iterates."""
+    child = path[-2]
+    if isinstance(scope, (nodes.FunctionDef, nodes.Lambda)):
+        if child == scope.args:
+            return len(path) == 3 and isinstance(path[0], nodes.AssignName)
+        return child not in (getattr(scope, "decorators", None), getattr(scope, "returns", None))
+    if isinstance(scope, nodes.ClassDef):
+        return child in scope.body
+    if isinstance(scope, nodes.ComprehensionScope):
+        return not (child == scope.generators[0] and len(path) > 2 and path[-3] == child.iter)
+    return True
+
+
 class VarEventListener(BaseVisitor[None]):
     NON_PURE_METHODS = re.compile(
         r"append|clear|extend|insert|pop|remove|reverse|sort|add|.*update|write"
@@ -54,6 +76,7 @@ class VarEventListener(BaseVisitor[None]):
         self.function_defs: List[nodes.FunctionDef] = []
         self.call_graph: Dict[ScopeNode, Set[ScopeNode]] = defaultdict(set)  # caller, calees
         self.outside_scope_events: Dict[ScopeNode, List[VarEvent]] = defaultdict(list)
+        self.nonlocals: Dict[ScopeNode, Set[VarName]] = defaultdict(set)
         super().__init__()
 
     @staticmethod
@@ -87,7 +110,7 @@ class VarEventListener(BaseVisitor[None]):
         ):
             loc = loc.node.args.cfg_loc
 
-        name_scope = self._get_var_node_scope(name)
+        name_scope = self._get_var_node_scope(name, name_node)
         # assert scope is not None or VarEventListener.may_be_unscoped(
         #     name, name_node, loc.node
         # ), f"but {name_node.as_string()}, {loc.node.as_string()}"
@@ -126,27 +149,44 @@ class VarEventListener(BaseVisitor[None]):
                 return -i
         return None
 
-    def _get_var_node_scope(self, name: VarName) -> Optional[Tuple[nodes.NodeNG, ScopeNode]]:
-        scope_index = self._get_var_scope_index(name)
-        if scope_index is None:
+    def _get_var_node_scope(
+        self, name: VarName, name_node: nodes.NodeNG
+    ) -> Optional[Tuple[nodes.NodeNG, ScopeNode]]:
+        scope = self._get_binding_scope(name, name_node)
+        if scope is None:
             return None
-        return self.stack[scope_index][name]
+
+        for name_scope in reversed(self.stack):
+            if name in name_scope and name_scope[name][1] == scope:
+                return name_scope[name]
+        # the name is visited sooner than the place binding it
+        return scope.locals[name][0], scope
+
+    def _get_binding_scope(self, name: VarName, name_node: nodes.NodeNG) -> Optional[ScopeNode]:
+        path = [name_node]
+        directly_inside = True
+        for node in name_node.node_ancestors():
+            path.append(node)
+            if not isinstance(node, ScopeNode) or not evaluated_inside(node, path):
+                continue
+            if (
+                is_bound_in(name, node)
+                and name not in self.nonlocals[node]
+                and (directly_inside or not isinstance(node, nodes.ClassDef))
+            ):
+                return node
+            directly_inside = False
+        return None
 
     def _init_var_in_scope(self, name: VarName, name_node: nodes.NodeNG) -> None:
         was_defined = name in self.stack[-1]
 
         if name not in self.stack[-1]:
-            scope = (
-                name_node.scope()
-                if not isinstance(
-                    name_node, (nodes.FunctionDef, nodes.AsyncFunctionDef, nodes.ClassDef)
-                )
-                else name_node.parent.scope()
-            )
+            scope = self._get_binding_scope(name, name_node)
+            if scope is None:  # names bound by wildcard imports are not known
+                scope = name_node.scope()
         else:
-            name_scope = self._get_var_node_scope(name)
-            assert name_scope is not None
-            _name, scope = name_scope
+            _name, scope = self.stack[-1][name]
 
         self.stack[-1][name] = (name_node, scope)
         self._add_var_event(
@@ -259,7 +299,10 @@ class VarEventListener(BaseVisitor[None]):
 
     def visit_nonlocal(self, node: nodes.Nonlocal):
         for name in node.names:
-            self.stack[-1][name] = (node, node.scope().parent.scope())
+            self.nonlocals[node.scope()].add(name)
+            scope = self._get_binding_scope(name, node)
+            if scope is not None:
+                self.stack[-1][name] = (node, scope)
 
         return self.default
 
-- 
2.43.0


From baedba61926e5117c7b0568700a3afb935263715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:35 +0000
Subject: [PATCH 52/57] fix: bind the name of the package by the import of its
 submodule

---
 edulint/linting/analyses/variable_scope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index eeaaf7e..bb21ca7 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -358,8 +358,8 @@ class VarEventListener(BaseVisitor[None]):
 
     def visit_import(self, node: nodes.Import):
         for module, alias in node.names:
-            name = module if alias is None else alias
-            self._init_var_in_scope(name, node)
+            # import of a submodule binds the name of the package
+            self._init_var_in_scope(module.split(".")[0] if alias is None else alias, node)
         return self.default
 
     def visit_importfrom(self, node: nodes.ImportFrom):
-- 
2.43.0


From ad470dc933fc598caf36b8322535ad47a4c23a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:36 +0000
Subject: [PATCH 53/57] fix: collect names in decorators, base classes,
 defaults and return annotations

---
 edulint/linting/analyses/data_dependency.py |  2 +-
 edulint/linting/analyses/variable_scope.py  | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 081c8f0..821c5b0 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -797,7 +797,7 @@ def _get_defs_at_rec(
 
         explored_functions.add(function)
         # resolved calls
-        var_events = list(function.cfg_loc.var_events.all())
+        var_events = list(function.cfg_loc.var_events.for_node(function))
         assert len(var_events) == 1 and var_events[0][0].name == function.name
         event = var_events[0][1]
         for use in event.uses:
diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index bb21ca7..ad58445 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -217,6 +217,11 @@ class VarEventListener(BaseVisitor[None]):
     def visit_module(self, node: nodes.Module):
         return self.visit_many(self.statements_before_definitions(node))
 
+    def _visit_defaults(self, args: nodes.Arguments) -> None:
+        for default in (args.defaults or []) + (args.kw_defaults or []):
+            if default is not None:
+                self.visit(default)
+
     @in_new_scope
     def visit_functiondef(self, node: nodes.FunctionDef):
         self.function_defs.append(node)
@@ -229,8 +234,7 @@ class VarEventListener(BaseVisitor[None]):
         for arg in node.args.arguments:
             self._init_var_in_scope(arg.name, arg)
 
-        for default in node.args.defaults:
-            self.visit(default)
+        self._visit_defaults(node.args)
 
         # posonly
         for ann in node.args.posonlyargs_annotations:
@@ -250,6 +254,11 @@ class VarEventListener(BaseVisitor[None]):
         if node.args.kwargannotation is not None:
             self.visit(node.args.kwargannotation)
 
+        if node.returns is not None:
+            self.visit(node.returns)
+        if node.decorators is not None:
+            self.visit(node.decorators)
+
         return self.visit_many(self.statements_before_definitions(node))
 
     def visit_asyncfunctiondef(self, node: nodes.AsyncFunctionDef):
@@ -257,6 +266,11 @@ class VarEventListener(BaseVisitor[None]):
 
     @in_new_scope
     def visit_classdef(self, node: nodes.ClassDef):
+        if node.decorators is not None:
+            self.visit(node.decorators)
+        self.visit_many(node.bases)
+        self.visit_many(node.keywords)
+
         return self.visit_many(self.statements_before_definitions(node))
 
     @in_new_scope
@@ -264,6 +278,8 @@ class VarEventListener(BaseVisitor[None]):
         for arg in node.args.arguments:
             self._init_var_in_scope(arg.name, arg)
 
+        self._visit_defaults(node.args)
+
         return self.visit(node.body)
 
     def _visit_generator(
-- 
2.43.0


From da5b17ecf8b668f0d711b784520436c4fbf477b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:36 +0000
Subject: [PATCH 54/57] fix: record definitions of functions and classes inside
 compound statements

---
 edulint/linting/analyses/variable_scope.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index ad58445..7fa4ca5 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -222,8 +222,17 @@ class VarEventListener(BaseVisitor[None]):
             if default is not None:
                 self.visit(default)
 
-    @in_new_scope
+    def _init_nested_definition(self, node: Union[nodes.FunctionDef, nodes.ClassDef]) -> None:
+        # definitions directly in a scope are introduced with the scope's other statements
+        if not isinstance(node.parent, ScopeNode):
+            self._init_var_in_scope(node.name, node)
+
     def visit_functiondef(self, node: nodes.FunctionDef):
+        self._init_nested_definition(node)
+        return self._visit_function_scope(node)
+
+    @in_new_scope
+    def _visit_function_scope(self, node: nodes.FunctionDef):
         self.function_defs.append(node)
 
         # args
@@ -264,8 +273,12 @@ class VarEventListener(BaseVisitor[None]):
     def visit_asyncfunctiondef(self, node: nodes.AsyncFunctionDef):
         self.visit_functiondef(node)
 
-    @in_new_scope
     def visit_classdef(self, node: nodes.ClassDef):
+        self._init_nested_definition(node)
+        return self._visit_class_scope(node)
+
+    @in_new_scope
+    def _visit_class_scope(self, node: nodes.ClassDef):
         if node.decorators is not None:
             self.visit(node.decorators)
         self.visit_many(node.bases)
-- 
2.43.0


From 198aef6324dd1983709f337e4d9eb89d372e2d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:36 +0000
Subject: [PATCH 55/57] fix: record deleting an item as a modification and
 names in deleted attributes

---
 edulint/linting/analyses/variable_scope.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 7fa4ca5..4422ec2 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -385,6 +385,14 @@ class VarEventListener(BaseVisitor[None]):
         self._del_var_from_scope(node.name, node)
         return self.default
 
+    def visit_delete(self, node: nodes.Delete) -> None:
+        for target in self._names_from_tuple(node.targets):
+            stripped = strip_to_name(target)
+            if isinstance(target, nodes.Subscript) and stripped is not None:
+                self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
+
+        return self.visit_many(node.get_children())
+
     def visit_import(self, node: nodes.Import):
         for module, alias in node.names:
             # import of a submodule binds the name of the package
@@ -428,6 +436,7 @@ class VarEventListener(BaseVisitor[None]):
 
     def visit_delattr(self, node: nodes.DelAttr) -> None:
         stripped = strip_to_name(node)
-        if stripped is None:
-            return
-        self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
+        if stripped is not None:
+            self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
+
+        return self.visit_many(node.get_children())
-- 
2.43.0


From c08eed3306935c627db284faef0455e0c74f2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:36 +0000
Subject: [PATCH 56/57] fix: read what a definition or assignment expression
 evaluates before binding its name

---
 edulint/linting/analyses/variable_scope.py | 76 ++++++++++------------
 1 file changed, 34 insertions(+), 42 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 4422ec2..cb9a461 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -209,7 +209,7 @@ class VarEventListener(BaseVisitor[None]):
             if not isinstance(child, (nodes.FunctionDef, nodes.AsyncFunctionDef, nodes.ClassDef)):
                 self.visit(child)
             else:
-                self._init_var_in_scope(child.name, child)
+                self._init_definition(child)
                 later.append(child)
         return later
 
@@ -222,68 +222,56 @@ class VarEventListener(BaseVisitor[None]):
             if default is not None:
                 self.visit(default)
 
-    def _init_nested_definition(self, node: Union[nodes.FunctionDef, nodes.ClassDef]) -> None:
-        # definitions directly in a scope are introduced with the scope's other statements
-        if not isinstance(node.parent, ScopeNode):
-            self._init_var_in_scope(node.name, node)
+    def _init_definition(self, node: Union[nodes.FunctionDef, nodes.ClassDef]) -> None:
+        # all of this is evaluated before the name is bound
+        if node.decorators is not None:
+            self.visit(node.decorators)
+        if isinstance(node, nodes.ClassDef):
+            self.visit_many(node.bases)
+            self.visit_many(node.keywords)
+        else:
+            self._visit_defaults(node.args)
+            self._visit_annotations(node)
+
+        self._init_var_in_scope(node.name, node)
+
+    def _visit_annotations(self, node: nodes.FunctionDef) -> None:
+        annotations = (
+            node.args.posonlyargs_annotations
+            + node.args.annotations
+            + [node.args.varargannotation]
+            + node.args.kwonlyargs_annotations
+            + [node.args.kwargannotation, node.returns]
+        )
+        for annotation in annotations:
+            if annotation is not None:
+                self.visit(annotation)
 
     def visit_functiondef(self, node: nodes.FunctionDef):
-        self._init_nested_definition(node)
+        # definitions directly in a scope are introduced with the scope's other statements
+        if not isinstance(node.parent, ScopeNode):
+            self._init_definition(node)
         return self._visit_function_scope(node)
 
     @in_new_scope
     def _visit_function_scope(self, node: nodes.FunctionDef):
         self.function_defs.append(node)
 
-        # args
-        for ann in node.args.annotations:
-            if ann is not None:
-                self.visit(ann)
-
         for arg in node.args.arguments:
             self._init_var_in_scope(arg.name, arg)
 
-        self._visit_defaults(node.args)
-
-        # posonly
-        for ann in node.args.posonlyargs_annotations:
-            if ann is not None:
-                self.visit(ann)
-
-        # kwonly
-        for ann in node.args.kwonlyargs_annotations:
-            if ann is not None:
-                self.visit(ann)
-
-        # vararg
-        if node.args.varargannotation is not None:
-            self.visit(node.args.varargannotation)
-
-        # kwarg
-        if node.args.kwargannotation is not None:
-            self.visit(node.args.kwargannotation)
-
-        if node.returns is not None:
-            self.visit(node.returns)
-        if node.decorators is not None:
-            self.visit(node.decorators)
-
         return self.visit_many(self.statements_before_definitions(node))
 
     def visit_asyncfunctiondef(self, node: nodes.AsyncFunctionDef):
         self.visit_functiondef(node)
 
     def visit_classdef(self, node: nodes.ClassDef):
-        self._init_nested_definition(node)
+        if not isinstance(node.parent, ScopeNode):
+            self._init_definition(node)
         return self._visit_class_scope(node)
 
     @in_new_scope
     def _visit_class_scope(self, node: nodes.ClassDef):
-        if node.decorators is not None:
-            self.visit(node.decorators)
-        self.visit_many(node.bases)
-        self.visit_many(node.keywords)
-
         return self.visit_many(self.statements_before_definitions(node))
 
     @in_new_scope
@@ -374,6 +362,10 @@ class VarEventListener(BaseVisitor[None]):
         self.visit(node.value)
         self._visit_assigned_to(node.target)
 
+    def visit_namedexpr(self, node: nodes.NamedExpr):
+        self.visit(node.value)
+        return self.visit(node.target)
+
     def visit_annassign(self, node: nodes.AnnAssign):
         self.visit(node.annotation)
         if node.value is not None:
-- 
2.43.0


From fd22bb32b5c6983215a5decc64eb9fed5ffdfc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 57/57] fix: record storing to an item anywhere in a target as
 a modification

---
 edulint/linting/analyses/variable_scope.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index cb9a461..d02cfad 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -3,6 +3,7 @@ import re
 from typing import Dict, List, Union, Optional, Iterator, Tuple, Set
 
 from astroid import nodes
+from astroid.const import Context
 
 from edulint.linting.analyses.cfg.utils import get_cfg_loc
 from edulint.linting.analyses.utils import BaseVisitor, is_builtin
@@ -377,11 +378,10 @@ class VarEventListener(BaseVisitor[None]):
         self._del_var_from_scope(node.name, node)
         return self.default
 
-    def visit_delete(self, node: nodes.Delete) -> None:
-        for target in self._names_from_tuple(node.targets):
-            stripped = strip_to_name(target)
-            if isinstance(target, nodes.Subscript) and stripped is not None:
-                self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
+    def visit_subscript(self, node: nodes.Subscript) -> None:
+        stripped = strip_to_name(node)
+        if node.ctx != Context.Load and stripped is not None:
+            self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
 
         return self.visit_many(node.get_children())
 
-- 
2.43.0

