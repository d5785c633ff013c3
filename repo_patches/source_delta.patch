From 2c7111c5d13ec29b37129674891b31ec7c43bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 01/58] fix: use implicit edulint.toml and .edulint.toml
 configuration files

---
 edulint/config/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 74932aa..0e5a1db 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -341,9 +341,9 @@ def search_for_config_in_parents(path):
     path = Path(path)
     path = (path.parent if path.is_file() else path).absolute()
     while path.parent != path:
-        for elem in path.iterdir():
-            if elem.name == IMPLICIT_CONFIG_FILENAMES:
-                return str(path / elem)
+        for filename in IMPLICIT_CONFIG_FILENAMES:
+            if (path / filename).is_file():
+                return str(path / filename)
         path = path.parent
     return None
 
-- 
2.43.0


From 13ce6db746bf0cd92a77c1176158b0061cc3adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 02/58] fix: pass Pylint arguments other than enable and
 disable on unchanged

---
 edulint/config/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 0e5a1db..b29caad 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -156,7 +156,8 @@ class Config:
         result = []
         all_set, enable = False, False
         for arg in reversed(pylint_args):
-            arg = arg.lower()
+            if arg.lower().startswith(("--enable=", "--disable=")):
+                arg = arg.lower()
             if arg == "--enable=noop":
                 pass
             elif arg in ("--disable=all", "--enable=all"):
@@ -165,8 +166,8 @@ class Config:
                 all_set = True
                 enable = arg == "--enable=all"
             elif all_set and (
-                (arg.startswith("--disable") and enable)
-                or (arg.startswith("--enable") and not enable)
+                (arg.startswith("--disable=") and enable)
+                or (arg.startswith("--enable=") and not enable)
             ):
                 continue
             result.append(arg)
-- 
2.43.0


From 18a8af7fdc274a63bb570bb4a48f5dd3280ea4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 03/58] fix: do not leak translations of one configuration to
 others with the same language file

---
 edulint/config/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index b29caad..800bb39 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -593,7 +593,7 @@ def get_config_many(
             )
             if lang_file_translations is not None:
                 lang_translations = {**lang_translations, **lang_file_translations}
-                lang_file_results[language_file] = lang_translations
+                lang_file_results[language_file] = lang_file_translations
 
         result.append((paths, iconfig, lang_translations))
     return result
-- 
2.43.0


From ea51db74fd788ac8adbcd8bafedf649c816521ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 04/58] fix: use the downloaded explanations when they are
 available

---
 edulint/explanations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index a35b470..3e68cee 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -44,7 +44,7 @@ def _load_updated_explanations() -> Optional[Dict[str, str]]:
     if not path_for_online_file.exists():
         return
     try:
-        with open(EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH, "rb") as f:
+        with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "rb") as f:
             return tomli.load(f)
     except:
         logger.warning("Updated explanations seem to be corrupted. Falling back to those distributed with the pip package.")
-- 
2.43.0


From a556dab7c486b13f0a8efa11bcf18c7525a410c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 05/58] fix: patch Pylint only once per process so that
 analyses do not pile up

---
 edulint/linting/analyses/patcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/linting/analyses/patcher.py b/edulint/linting/analyses/patcher.py
index aa280e1..2fd87ab 100644
--- a/edulint/linting/analyses/patcher.py
+++ b/edulint/linting/analyses/patcher.py
@@ -35,6 +35,8 @@ def run_analyses(ast: astroid.nodes.Module):
 
 def patch_ast_transforms():
     old_get_ast = PyLinter.get_ast
+    if getattr(old_get_ast, "runs_edulint_analyses", False):
+        return
 
     def new_get_ast(self, filepath, modname, data=None):
         ast = old_get_ast(self, filepath, modname, data)
@@ -44,6 +46,7 @@ def patch_ast_transforms():
         run_analyses(ast)
         return ast
 
+    new_get_ast.runs_edulint_analyses = True
     PyLinter.get_ast = new_get_ast
     astroid.raw_building._CONST_PROXY[AunifyVar] = None
 
-- 
2.43.0


From 9c9db51482947cb77ec766ba2457032ac7caa211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 06/58] fix: do not reuse stale syntax trees of files changed
 between checks

---
 edulint/linting/linting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 70970c6..ac5f4e6 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -187,7 +187,7 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
 
 
 def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
-    pylint_args = ["--recursive=y"] + list(config[Option.PYLINT]) + files_or_dirs
+    pylint_args = ["--recursive=y", "--clear-cache-post-run=y"] + list(config[Option.PYLINT]) + files_or_dirs
 
     from pylint.lint import Run
     from pylint.reporters.json_reporter import JSON2Reporter
-- 
2.43.0


From 81460e6a72c841daa0bb66bba9119a6aa31df5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 07/58] fix: accept any spelling of a checked path, including
 symlinks and parent directories

---
 edulint/linting/linting.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index ac5f4e6..d0c9da2 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -69,22 +69,11 @@ def pylint_to_problem(
         if is_pylint_out_of_file_problem(path):
             return path
 
-        path = Path(path)
-        abs_path = path.resolve()
-        for fd in [Path(path) for path in files_or_dirs]:
-            abs_fd = fd.resolve()
+        abs_path = Path(os.path.abspath(path))
+        for fd in files_or_dirs:
+            abs_fd = Path(os.path.abspath(fd))
             if abs_fd == abs_path or abs_fd in abs_path.parents:
-                if fd.is_absolute():
-                    return abs_path
-                else:
-                    cwd_parts = Path.cwd().parts
-                    abs_path_parts = abs_path.parts
-
-                    for i in range(min(len(cwd_parts), len(abs_path_parts))):
-                        if cwd_parts[i] != abs_path_parts[i]:
-                            break
-
-                    return Path(*[".."] * (len(cwd_parts) - i), *abs_path_parts[i:])
+                return str(abs_path) if os.path.isabs(fd) else os.path.relpath(abs_path)
         assert False, f"unreachable, but {path}"
 
     code_enabler = enablers.get(raw["messageId"])
@@ -151,7 +140,8 @@ def process_results(
 def lint_edulint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
     ignored_infile = set(config[Option.IGNORE_INFILE_CONFIG_FOR])
     if len(ignored_infile) > 0:
-        return report_infile_config(files_or_dirs, ignored_infile, config.enablers)
+        problems = report_infile_config(files_or_dirs, ignored_infile, config.enablers)
+        return [problem.set_path(get_proper_path(problem.path)) for problem in problems]
     return []
 
 
@@ -258,13 +248,13 @@ def lint_one(filename: str, config: Tuple[ImmutableConfig, LangTranslations]) ->
 
 
 def sort(files_or_dirs: List[str], problems: List[Problem]) -> List[Problem]:
-    files_or_dirs = [Path(path) for path in files_or_dirs]
+    files_or_dirs = [Path(os.path.abspath(path)) for path in files_or_dirs]
 
     def get_file_or_dir_index(path: str):
         if is_pylint_out_of_file_problem(path):
             return -1
 
-        path = Path(path)
+        path = Path(os.path.abspath(path))
         for i, fd in enumerate(files_or_dirs):
             if fd == path or fd in path.parents:
                 return i
-- 
2.43.0


From cb1ba67a9903499091c9e61dab2973c41f02a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 08/58] fix: exit with a non-zero code when EduLint itself
 fails

---
 edulint/edulint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index c0ccff4..cdcbc9f 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -286,7 +286,7 @@ def print_message_explanations(args):
     return 0
 
 
-@logger.catch
+@logger.catch(default=2)
 def main() -> int:
     setup_logger()
     option_parses = get_option_parses()
-- 
2.43.0


From a9fd758420a774be33bb429fa587912f8f7013a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 09/58] fix: report an error when the configuration of a
 checked file cannot be loaded

---
 edulint/config/config.py |  9 ++++++++-
 edulint/edulint.py       | 12 ++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 800bb39..5119e17 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -15,7 +15,11 @@ from edulint.option_parses import (
     LANG_TRANSLATIONS_LABEL,
     DEFAULT_ENABLER_LABEL,
 )
-from edulint.config.file_config import load_toml_file, get_path_relative_to
+from edulint.config.file_config import (
+    EduLintConfigFileException,
+    load_toml_file,
+    get_path_relative_to,
+)
 from edulint.config.option_sets import OptionSets, OptionSet, parse_option_sets
 from edulint.config.language_translations import (
     LangTranslations,
@@ -547,6 +551,7 @@ def get_config_many(
     files_or_dirs: List[str],
     cmd_args_raw: List[str],
     option_parses: Dict[Option, OptionParse] = get_option_parses(),
+    skip_unavailable: bool = True,
 ) -> List[Tuple[List[str], ImmutableConfig, LangTranslations]]:
     cmd_config = parse_cmd_config(cmd_args_raw, option_parses)
     infile_configs = _parse_infile_configs(files_or_dirs, cmd_config, option_parses)
@@ -574,6 +579,8 @@ def get_config_many(
             ]
         )
         if config_file_result is None:
+            if not skip_unavailable:
+                raise EduLintConfigFileException(f"configuration for {', '.join(paths)} unavailable")
             continue
         file_config, option_sets, lang_translations = config_file_result
 
diff --git a/edulint/edulint.py b/edulint/edulint.py
index cdcbc9f..4bd21c9 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -1,6 +1,7 @@
 from edulint.options import Option
 from edulint.option_parses import OptionParse, get_option_parses
 from edulint.config.config import get_config_many, get_cmd_args, ImmutableConfig
+from edulint.config.file_config import EduLintConfigFileException
 from edulint.config.language_translations import LangTranslations
 from edulint.linting.problem import Problem
 from edulint.linting.linting import lint_many, sort, EduLintLinterFailedException
@@ -167,11 +168,18 @@ def _check_code(
             return None
 
     cmd_args = get_cmd_args(options)
-    file_configs = get_config_many(files_or_dirs, cmd_args, option_parses=option_parses)
 
     try:
+        file_configs = get_config_many(
+            files_or_dirs, cmd_args, option_parses=option_parses, skip_unavailable=False
+        )
         results = lint_many(file_configs)
-    except (TimeoutError, json.decoder.JSONDecodeError, EduLintLinterFailedException) as e:
+    except (
+        TimeoutError,
+        json.decoder.JSONDecodeError,
+        EduLintConfigFileException,
+        EduLintLinterFailedException,
+    ) as e:
         logger.opt(raw=True, colors=True).critical(f"<red>EduLint linting failed:</red> {e}\n")
         return None
 
-- 
2.43.0


From 081bf92b607f170d039f83ea96c455b1d5f97e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 10/58] fix: do not announce an update when the latest version
 is not known

---
 edulint/versions/version_checker.py | 223 ++++++++++++++--------------
 1 file changed, 113 insertions(+), 110 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 1bbafbc..88a8223 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,110 +1,113 @@
-from typing import Optional, Tuple
-import os
-import json
-from dataclasses import dataclass
-import time
-from pathlib import Path
-
-from platformdirs import PlatformDirs
-from dataclasses_json import dataclass_json
-
-from edulint.versions import pypi_helper
-
-def current_timestamp() -> int:
-    return int(time.time())
-
-
-@dataclass_json
-@dataclass
-class PackageInfo:
-    version: Optional[str] = None
-    last_update_started: int = 0
-
-
-class PackageInfoManager:
-    @staticmethod
-    def get_local_module_version(package_name: str) -> Optional[str]:
-        try:
-            from importlib.metadata import version  # This is only available in Python >= 3.8
-            return version(package_name)
-        except:
-            pass
-
-        try:
-            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
-            return pkg_resources.get_distribution(package_name).version
-        except:
-            pass
-
-        return None
-
-    @staticmethod
-    def _create_json_file_if_doesnt_exist(filepath: str):
-        if os.path.exists(filepath):
-            return
-        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
-        with open(filepath, "w", encoding="utf8") as f:
-            f.write("{}")
-
-    @classmethod
-    def _package_info_path(cls):
-        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
-        cls._create_json_file_if_doesnt_exist(filepath)
-        return filepath 
-
-    @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-
-        package_info = PackageInfo.from_dict(data.get(package_name, {}))
-
-        if version:
-            package_info.version = version
-        if last_update_started:
-            package_info.last_update_started = last_update_started
-            
-        data[package_name] = package_info.to_dict()
-        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
-            json.dump(data, f, indent=4)
-        
-        return package_info
-
-    @classmethod
-    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
-
-    @classmethod
-    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
-        try:
-            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
-            versions = pypi_helper.get_versions(package_name)
-            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
-            latest_version_str = str(sorted_versions[-1])
-            cls._save_package_info_locally(package_name, version=latest_version_str)
-            return latest_version_str
-        except Exception as _:
-            return None
-
-    @classmethod
-    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
-        local_package_version = cls.get_local_module_version(package_name)
-        if local_package_version is None: # unable to determine local package version
-            return False
-
-        latest_version = cls.get_latest_version(package_name, ttl)
-        
-        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
-
-
-if __name__ == "__main__":
-    print("START")
-    print(PackageInfoManager.get_latest_version("edulint"))
-    print("END")
+from typing import Optional, Tuple
+import os
+import json
+from dataclasses import dataclass
+import time
+from pathlib import Path
+
+from platformdirs import PlatformDirs
+from dataclasses_json import dataclass_json
+
+from edulint.versions import pypi_helper
+
+def current_timestamp() -> int:
+    return int(time.time())
+
+
+@dataclass_json
+@dataclass
+class PackageInfo:
+    version: Optional[str] = None
+    last_update_started: int = 0
+
+
+class PackageInfoManager:
+    @staticmethod
+    def get_local_module_version(package_name: str) -> Optional[str]:
+        try:
+            from importlib.metadata import version  # This is only available in Python >= 3.8
+            return version(package_name)
+        except:
+            pass
+
+        try:
+            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
+            return pkg_resources.get_distribution(package_name).version
+        except:
+            pass
+
+        return None
+
+    @staticmethod
+    def _create_json_file_if_doesnt_exist(filepath: str):
+        if os.path.exists(filepath):
+            return
+        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
+        with open(filepath, "w", encoding="utf8") as f:
+            f.write("{}")
+
+    @classmethod
+    def _package_info_path(cls):
+        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
+        cls._create_json_file_if_doesnt_exist(filepath)
+        return filepath 
+
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+
+        package_info = PackageInfo.from_dict(data.get(package_name, {}))
+
+        if version:
+            package_info.version = version
+        if last_update_started:
+            package_info.last_update_started = last_update_started
+            
+        data[package_name] = package_info.to_dict()
+        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
+            json.dump(data, f, indent=4)
+        
+        return package_info
+
+    @classmethod
+    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+            package_info = PackageInfo.from_dict(data.get(package_name, {}))
+            return package_info
+
+    @classmethod
+    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
+        package_info = cls._get_package_info_locally(package_name)
+        if current_timestamp() < package_info.last_update_started + ttl:
+            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
+        try:
+            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
+            versions = pypi_helper.get_versions(package_name)
+            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
+            latest_version_str = str(sorted_versions[-1])
+            cls._save_package_info_locally(package_name, version=latest_version_str)
+            return latest_version_str
+        except Exception as _:
+            return None
+
+    @classmethod
+    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+        local_package_version = cls.get_local_module_version(package_name)
+        if local_package_version is None: # unable to determine local package version
+            return False
+
+        latest_version = cls.get_latest_version(package_name, ttl)
+        
+        if latest_version is None:  # unable to determine the latest version
+            return False
+
+        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
+
+
+if __name__ == "__main__":
+    print("START")
+    print(PackageInfoManager.get_latest_version("edulint"))
+    print("END")
-- 
2.43.0


From 8e538852e845b45839f66df90d9772e664fed717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 11/58] fix: ignore in-file configuration with unbalanced
 quotes instead of failing

---
 edulint/config/config.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 5119e17..a72c522 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -250,7 +250,15 @@ def extract_args(path: str) -> List[str]:
             edmatch = edulint_re.match(line)
             if edmatch:
                 raw_args = line[edmatch.end() :]
-                result.extend(shlex.split(raw_args))
+                try:
+                    result.extend(shlex.split(raw_args))
+                except ValueError as e:
+                    logger.warning(
+                        "invalid in-file configuration {args} in {path}: {e}",
+                        args=raw_args,
+                        path=path,
+                        e=e,
+                    )
 
             ibmatch = ib111_re.match(line)
             if ibmatch:
-- 
2.43.0


From fc8996b35f385ba2d159d4ef3357689f4837d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 12/58] fix: ignore config file values of unexpected types
 instead of failing

---
 edulint/config/config.py                | 3 +++
 edulint/config/language_translations.py | 2 +-
 edulint/config/option_sets.py           | 2 +-
 edulint/config/utils.py                 | 2 +-
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index a72c522..2f540a8 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -419,6 +419,9 @@ def parse_config_file(
                 continue
 
             if option == Option.LANGUAGE_FILE:
+                if not isinstance(val, str):
+                    print_invalid_type_message(option, val)
+                    continue
                 val = get_path_relative_to(val, path)
 
             if not isinstance(val, dict):
diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index bd8f3d0..b810a57 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -114,7 +114,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             val=raw_lang_translations,
             type=type(raw_lang_translations),
         )
-        return None
+        return {}
 
     translated_extracts = raw_lang_translations.get(LANG_TRANSLATED_EXTRACTS_LABEL, {})
     if not isinstance(translated_extracts, dict):
diff --git a/edulint/config/option_sets.py b/edulint/config/option_sets.py
index ae33a68..049c3c1 100644
--- a/edulint/config/option_sets.py
+++ b/edulint/config/option_sets.py
@@ -23,7 +23,7 @@ def parse_option_sets(raw_option_sets: Any) -> Optional[OptionSets]:
             val=raw_option_sets,
             type=type(raw_option_sets),
         )
-        return None
+        return {}
 
     option_sets = {}
     for name, to in raw_option_sets.items():
diff --git a/edulint/config/utils.py b/edulint/config/utils.py
index d0ca572..6eaf6c5 100644
--- a/edulint/config/utils.py
+++ b/edulint/config/utils.py
@@ -18,7 +18,7 @@ def config_file_val_to_str(option: Union[Option, str], val: Any) -> Optional[str
         return str(val)
     if isinstance(val, str):
         return val
-    if isinstance(val, list):
+    if isinstance(val, list) and all(isinstance(elem, str) for elem in val):
         return ",".join(val)
     if isinstance(val, tuple):
         key, value = val
-- 
2.43.0


From 4dacc2a2fd77892b1533ec63602f47da2eee27aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 13/58] fix: do not fail on translations that cannot be filled
 in

---
 edulint/config/language_translations.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index b810a57..bfea73d 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -78,7 +78,7 @@ class Translation:
         result = []
         for i, word in enumerate(extracts):
             mapping = self.extracts.get(str(i + 1))
-            if mapping is not None:
+            if isinstance(mapping, dict):
                 result.append(mapping.get(word, word))
             else:
                 result.append(word)
@@ -101,7 +101,16 @@ class Translation:
         match = re.match(pattern, message, flags=re.IGNORECASE)
         if not match:
             return self.translation
-        return self.translation.format(*self.translate_extracts(match.groups()))
+        try:
+            return self.translation.format(*self.translate_extracts(match.groups()))
+        except (IndexError, KeyError, ValueError) as e:
+            logger.warning(
+                "translation {translation} for {code} cannot be filled in: {e}",
+                translation=self.translation,
+                code=code,
+                e=repr(e),
+            )
+            return self.translation
 
 
 LangTranslations = Dict[str, Translation]
@@ -168,7 +177,10 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             )
             continue
 
-        lang_translations[id_] = Translation(translation, translated_extracts.get(id_, {}))
+        extracts = translated_extracts.get(id_, {})
+        lang_translations[id_] = Translation(
+            translation, extracts if isinstance(extracts, dict) else {}
+        )
 
     return lang_translations
 
-- 
2.43.0


From 34306752e92b0aac80454088bbb14a64180f55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 14/58] fix: restore standard streams even when a linter raises

---
 edulint/linting/linting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index d0c9da2..5bb95a4 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -161,9 +161,9 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stdout = old_stdout
-    sys.stderr = old_stderr
+    finally:
+        sys.stdout = old_stdout
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.FLAKE8,
@@ -194,8 +194,8 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stderr = old_stderr
+    finally:
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.PYLINT,
-- 
2.43.0


From f11b10e71130d595a886839f8db913eb1efcc4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 15/58] fix: do not fail on checked files that are not valid
 UTF-8

---
 edulint/config/config.py               | 2 +-
 edulint/linting/nonparsing_checkers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 2f540a8..c82952b 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -243,7 +243,7 @@ def extract_args(path: str) -> List[str]:
     ib111_re = re.compile(r".*from\s+ib111\s+import.+week_(\d+)", re.IGNORECASE)
 
     result: List[str] = []
-    with open(path, encoding="utf-8") as f:
+    with open(path, encoding="utf-8", errors="replace") as f:
         for i, line in enumerate(f):
             line = line.strip()
 
diff --git a/edulint/linting/nonparsing_checkers.py b/edulint/linting/nonparsing_checkers.py
index 9d94afc..5ae0448 100644
--- a/edulint/linting/nonparsing_checkers.py
+++ b/edulint/linting/nonparsing_checkers.py
@@ -52,7 +52,7 @@ def report_infile_config(
     results = []
     ib111_re = re.compile(r".*from\s+ib111\s+import", re.IGNORECASE)
     for file_path in to_file_paths(files_or_dirs):
-        with open(file_path, encoding="utf-8") as f:
+        with open(file_path, encoding="utf-8", errors="replace") as f:
             for i, line in enumerate(f, 1):
                 for pattern in patterns:
                     match = pattern.match(line)
-- 
2.43.0


From b484c66eb605c48f3a72bd8a266d1730fad8a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 16/58] fix: never serve a partially written cached remote
 configuration

---
 edulint/config/file_config.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index e94b445..e8e9408 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 import string
 import os
+import tempfile
 from typing import Dict, Any, Optional
 import hashlib
 import json
@@ -135,7 +136,7 @@ class CachedHTTPGet:
         """
 
         cached_version: str = cls._read_version_from_disk(url, max_age_in_seconds=max_cache_time)
-        if cached_version:
+        if cached_version is not None:
             return cached_version
 
         try:
@@ -158,7 +159,7 @@ class CachedHTTPGet:
         cached_version: str = cls._read_version_from_disk(
             url, max_age_in_seconds=max_cache_time_when_offline
         )
-        if cached_version:
+        if cached_version is not None:
             return cached_version
         raise FileNotFoundError(
             f"request for external config '{url}' failed -- maybe you are offline or the URL is incorrect."
@@ -191,21 +192,27 @@ class CachedHTTPGet:
         base_filepath = cls._get_filepath_from_source(source)
         return base_filepath.with_suffix(base_filepath.suffix + ".metadata")
 
+    @staticmethod
+    def _write_atomically(filepath: Path, content: str):
+        # a reader never sees a partially written file, even after a crash in the middle of the write
+        fd, tmp_filepath = tempfile.mkstemp(dir=filepath.parent, prefix=filepath.name)
+        try:
+            with open(fd, "w", encoding="utf8") as f:
+                f.write(content)
+            os.replace(tmp_filepath, filepath)
+        except BaseException:
+            os.unlink(tmp_filepath)
+            raise
+
     @classmethod
     def _write_version_to_disk(cls, source: str, content: str):
         try:
-            with open(cls._get_filepath_from_source(source), "w", encoding="utf8") as f:
-                # security: writing arbitrary content from web is not great, but at least it's written as text
-                f.write(content)
-            with open(cls._get_metadata_filepath(source), "w", encoding="utf8") as f:
-                json.dump(
-                    {
-                        "timestamp": cls._get_timestamp(),
-                        "source": source,
-                    },
-                    f,
-                    indent=4,
-                )
+            # security: writing arbitrary content from web is not great, but at least it's written as text
+            cls._write_atomically(cls._get_filepath_from_source(source), content)
+            cls._write_atomically(
+                cls._get_metadata_filepath(source),
+                json.dumps({"timestamp": cls._get_timestamp(), "source": source}, indent=4),
+            )
         except Exception as e:
             logger.error("saving cache file for configuration failed:\n {e}", e=e)
 
-- 
2.43.0


From 5331dd40fc658a111bb6493ae0de772951c310e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 17/58] fix: recover from corrupted version information instead
 of failing on every run

---
 edulint/versions/version_checker.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 88a8223..b1410a6 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,4 +1,4 @@
-from typing import Optional, Tuple
+from typing import Any, Dict, Optional, Tuple
 import os
 import json
 from dataclasses import dataclass
@@ -53,9 +53,17 @@ class PackageInfoManager:
         return filepath 
 
     @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+    def _load_data(cls) -> Dict[str, Any]:
         with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
+            try:
+                data = json.load(f)
+            except ValueError:  # corrupted, e.g. by a concurrent or interrupted write
+                return {}
+        return data if isinstance(data, dict) else {}
+
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        data = cls._load_data()
 
         package_info = PackageInfo.from_dict(data.get(package_name, {}))
 
@@ -72,10 +80,8 @@ class PackageInfoManager:
 
     @classmethod
     def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
+        data = cls._load_data()
+        return PackageInfo.from_dict(data.get(package_name, {}))
 
     @classmethod
     def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-- 
2.43.0


From 1df0ece4db658363911420c828fc98c7cd642d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 18/58] fix: never serve partially downloaded explanations

---
 edulint/explanations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index 3e68cee..c9c6cc2 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -75,8 +75,11 @@ def _thread_update_explanations(ttl: int = 600):
         if resp.status_code != 200:
             return
 
-        with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "w", encoding="utf8") as f:
+        # a reader never sees a partially written file, even after a crash in the middle of the write
+        tmp_filepath = f"{EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH}.{os.getpid()}.tmp"
+        with open(tmp_filepath, "w", encoding="utf8") as f:
             f.write(resp.text)
+        os.replace(tmp_filepath, EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
     except Exception as e:
         logger.debug(f"Update of explanations failed with {e}. This can ocassionaly hapen for some processes due to race condition.")
 
-- 
2.43.0


From fc3d9592c1e51297a1d619c4ca6cc89a609aeeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 19/58] fix: drop only cached syntax trees of files between
 checks

---
 edulint/linting/linting.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 5bb95a4..6806b9f 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -177,11 +177,17 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
 
 
 def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
-    pylint_args = ["--recursive=y", "--clear-cache-post-run=y"] + list(config[Option.PYLINT]) + files_or_dirs
+    pylint_args = ["--recursive=y"] + list(config[Option.PYLINT]) + files_or_dirs
 
+    from astroid import MANAGER
     from pylint.lint import Run
     from pylint.reporters.json_reporter import JSON2Reporter
 
+    # the files may have changed since they were last parsed in this process
+    for name, module in list(MANAGER.astroid_cache.items()):
+        if module.file is not None:
+            del MANAGER.astroid_cache[name]
+
     output = StringIO()
     reporter = JSON2Reporter(output)
 
-- 
2.43.0


From 5ead3d069a97728ae4092239c1890a685910a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 20/58] fix: ignore option sets for linters that take no
 arguments instead of failing

---
 edulint/config/option_sets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edulint/config/option_sets.py b/edulint/config/option_sets.py
index 049c3c1..ef62c5f 100644
--- a/edulint/config/option_sets.py
+++ b/edulint/config/option_sets.py
@@ -39,11 +39,13 @@ def parse_option_sets(raw_option_sets: Any) -> Optional[OptionSets]:
         option_set = OptionSet()
         for linter_str, translated in to.items():
             linter = Linter.safe_from_name(linter_str)
-            if linter is None:
+            if linter is None or linter == Linter.EDULINT:
                 logger.warning(
                     "invalid value {linter} where one of {linters} is expected",
                     linter=linter_str,
-                    linters=", ".join(linter.to_name() for linter in Linter),
+                    linters=", ".join(
+                        linter.to_name() for linter in Linter if linter != Linter.EDULINT
+                    ),
                 )
                 continue
 
-- 
2.43.0


From d83d126fa3dec8717f1e3d1c0ff8bcfa9cbcd35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 21/58] fix: do not lint files with configuration of others
 that only look alike

---
 edulint/config/config.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index c82952b..1090385 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -517,12 +517,17 @@ def _parse_infile_configs(
     files_or_dirs: List[str], cmd_config: Config, option_parses: Dict[Option, OptionParse]
 ) -> Dict[ImmutableConfig, Tuple[Config, List[str]]]:
 
-    def add_to_result(result, config, path, iconfig=None):
-        iconfig = config.to_immutable() if iconfig is None else iconfig
-        if iconfig not in result:
-            result[iconfig] = (config, [path])
-        else:
-            result[iconfig][1].append(path)
+    def to_key(config: Config) -> ImmutableConfig:
+        # unlike in to_immutable, unset options and the order of options matter,
+        # as the config is yet to be combined with others
+        return ImmutableConfig(
+            tuple(
+                ImmutableArg(arg.option, Config._to_immutable(arg.val))
+                for arg in config.config
+                if arg is not None
+            ),
+            hashabledict(config.enablers),
+        )
 
     def aggregate_subresults(paths):
         result = {}
@@ -541,7 +546,7 @@ def _parse_infile_configs(
                 return {}
 
             infile_config = parse_infile_config(path, option_parses)
-            return {infile_config.to_immutable(log_unknown_groups=False): (infile_config, [path])}
+            return {to_key(infile_config): (infile_config, [path])}
 
         result = aggregate_subresults([os.path.join(path, name) for name in os.listdir(path)])
 
@@ -553,7 +558,7 @@ def _parse_infile_configs(
 
     if _ignore_infile(cmd_config):
         default_config = _get_default_config(option_parses)[0]
-        return {default_config.to_immutable(): (default_config, files_or_dirs)}
+        return {to_key(default_config): (default_config, files_or_dirs)}
 
     return aggregate_subresults(files_or_dirs)
 
@@ -572,7 +577,10 @@ def get_config_many(
     if cmd_config_path is not None:
         config_paths = {cmd_config_path}
     else:
-        config_paths = {iconfig[Option.CONFIG_FILE] for iconfig in infile_configs.keys()}
+        config_paths = {
+            infile_config.get_last_value(Option.CONFIG_FILE, use_default=True)
+            for infile_config, _paths in infile_configs.values()
+        }
 
     config_file_results = {
         config_path: parse_config_file(config_path, option_parses) for config_path in config_paths
-- 
2.43.0


From 3a1c10060e82e4c3ab707bd3c9d472899d265707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 22/58] fix: fill in translations of all messages with variable
 parts

---
 edulint/config/language_translations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index bfea73d..795828d 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -17,7 +17,10 @@ from edulint.linting import checkers as edulint_checkers
 
 
 def to_pattern(message: str):
-    return re.sub("%[rsd]", "(.*)", re.escape(message), flags=re.IGNORECASE)
+    # any printf-style placeholder, for example %s, %i, %#02x or %(name)s
+    return re.sub(
+        r"%(\\\(\w+\\\))?(\\#)?\d*[a-z]", "(.*)", re.escape(message), flags=re.IGNORECASE
+    ).replace("%%", "%")
 
 
 def checker_classes(module):
@@ -98,12 +101,12 @@ class Translation:
         if pattern is None or "(.*)" not in pattern:
             return self.translation
 
-        match = re.match(pattern, message, flags=re.IGNORECASE)
+        match = re.match(pattern, message, flags=re.IGNORECASE | re.DOTALL)
         if not match:
             return self.translation
         try:
             return self.translation.format(*self.translate_extracts(match.groups()))
-        except (IndexError, KeyError, ValueError) as e:
+        except Exception as e:  # whatever a format string can do
             logger.warning(
                 "translation {translation} for {code} cannot be filled in: {e}",
                 translation=self.translation,
-- 
2.43.0


From a8889a6ad9b220cff1473ae5f2cc37d1eea0683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 23/58] fix: do not share temporary explanations files between
 threads

---
 edulint/explanations.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index c9c6cc2..b33d407 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -6,6 +6,7 @@ from typing import Optional, Dict
 import dbm
 import time
 import random
+import tempfile
 
 import tomli
 import requests
@@ -76,10 +77,14 @@ def _thread_update_explanations(ttl: int = 600):
             return
 
         # a reader never sees a partially written file, even after a crash in the middle of the write
-        tmp_filepath = f"{EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH}.{os.getpid()}.tmp"
-        with open(tmp_filepath, "w", encoding="utf8") as f:
-            f.write(resp.text)
-        os.replace(tmp_filepath, EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
+        fd, tmp_filepath = tempfile.mkstemp(dir=EDULINT_LOCAL_DATA_FOLDER, suffix=".tmp")
+        try:
+            with open(fd, "w", encoding="utf8") as f:
+                f.write(resp.text)
+            os.replace(tmp_filepath, EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
+        except BaseException:
+            os.unlink(tmp_filepath)
+            raise
     except Exception as e:
         logger.debug(f"Update of explanations failed with {e}. This can ocassionaly hapen for some processes due to race condition.")
 
-- 
2.43.0


From 21f883c2a522b21100d05d3b99b89ccee8a581d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 24/58] fix: announce only updates to newer full releases

---
 edulint/versions/version_checker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index b1410a6..185dba1 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -9,6 +9,7 @@ from platformdirs import PlatformDirs
 from dataclasses_json import dataclass_json
 
 from edulint.versions import pypi_helper
+from edulint.versions.utils import Version
 
 def current_timestamp() -> int:
     return int(time.time())
@@ -92,8 +93,8 @@ class PackageInfoManager:
         try:
             cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
             versions = pypi_helper.get_versions(package_name)
-            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
-            latest_version_str = str(sorted_versions[-1])
+            # pip does not upgrade to prereleases on its own
+            latest_version_str = str(max(v for v in versions if not v.is_prerelease))
             cls._save_package_info_locally(package_name, version=latest_version_str)
             return latest_version_str
         except Exception as _:
@@ -110,7 +111,8 @@ class PackageInfoManager:
         if latest_version is None:  # unable to determine the latest version
             return False
 
-        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
+        local, latest = Version.parse(local_package_version), Version.parse(latest_version)
+        return local is not None and latest is not None and local < latest
 
 
 if __name__ == "__main__":
-- 
2.43.0


From df6eabd17c089fceca27d44fc674854975cae28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 25/58] fix: keep repeated multiplications whose operands
 contain a dot

---
 edulint/linting/tweakers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/tweakers.py b/edulint/linting/tweakers.py
index 7169472..d9c7275 100644
--- a/edulint/linting/tweakers.py
+++ b/edulint/linting/tweakers.py
@@ -134,7 +134,7 @@ TWEAKERS = {
     ),
     (Linter.PYLINT, "R6607"): Tweaker(  # no-repeated-op
         set([Option.SET_GROUPS]),
-        re.compile(r"^Use [^ ]* instead of repeated [^ ]* in ([^\.]*)."),
+        re.compile(r"^Use [^ ]* instead of repeated [^ ]* in (.*)\.$", re.DOTALL),
         no_repeated_op_keep,
     ),
     (Linter.PYLINT, "C0325"): Tweaker(  # superfluous-parens
-- 
2.43.0


From c698c6dde5cbc1928faf58411504a1d5e38c324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 26/58] fix: ignore messages about modules that were not passed
 to be checked

---
 edulint/linting/linting.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 6806b9f..d18d0be 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -1,5 +1,5 @@
 from io import StringIO
-from typing import List, Callable, Tuple, Dict, Set, Any
+from typing import List, Callable, Tuple, Dict, Set, Any, Optional
 from edulint.linting.problem import ProblemJson, Problem
 from edulint.linting.nonparsing_checkers import report_infile_config
 from edulint.linting.process_handler import ProcessHandler
@@ -49,6 +49,18 @@ def is_pylint_out_of_file_problem(path):
     return any(segment in path.lower() for segment in ("command line", "configuration file"))
 
 
+def get_used_filename(files_or_dirs: List[str], path: str) -> Optional[str]:
+    if is_pylint_out_of_file_problem(path):
+        return path
+
+    abs_path = Path(os.path.abspath(path))
+    for fd in files_or_dirs:
+        abs_fd = Path(os.path.abspath(fd))
+        if abs_fd == abs_path or abs_fd in abs_path.parents:
+            return str(abs_path) if os.path.isabs(fd) else os.path.relpath(abs_path)
+    return None
+
+
 def pylint_to_problem(
     files_or_dirs: List[str], enablers: Dict[str, str], raw: ProblemJson
 ) -> Problem:
@@ -65,16 +77,8 @@ def pylint_to_problem(
     ), f'got {type(raw["endColumn"])} for endColumn'
     assert isinstance(raw["symbol"], str), f'get {type(raw["symbol"])} for symbol'
 
-    def get_used_filename(path: str) -> str:
-        if is_pylint_out_of_file_problem(path):
-            return path
-
-        abs_path = Path(os.path.abspath(path))
-        for fd in files_or_dirs:
-            abs_fd = Path(os.path.abspath(fd))
-            if abs_fd == abs_path or abs_fd in abs_path.parents:
-                return str(abs_path) if os.path.isabs(fd) else os.path.relpath(abs_path)
-        assert False, f"unreachable, but {path}"
+    used_filename = get_used_filename(files_or_dirs, raw["path"])
+    assert used_filename is not None, f'unreachable, but {raw["path"]}'
 
     code_enabler = enablers.get(raw["messageId"])
     symbol_enabler = enablers.get(raw["symbol"])
@@ -82,7 +86,7 @@ def pylint_to_problem(
     return Problem(
         Linter.PYLINT,
         code_enabler if code_enabler is not None else symbol_enabler,
-        get_proper_path(get_used_filename(raw["path"])),
+        get_proper_path(used_filename),
         raw["line"],
         raw["column"],
         raw["messageId"],
@@ -208,7 +212,10 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code,
         output.getvalue(),
         new_stderr.getvalue(),
-        lambda r: r["messages"],
+        # Pylint may emit messages for modules that are only imported by the checked files
+        lambda r: [
+            m for m in r["messages"] if get_used_filename(files_or_dirs, m["path"]) is not None
+        ],
         partial(pylint_to_problem, files_or_dirs),
         config.enablers,
     )
-- 
2.43.0


From 189c6f764fe5e2e9217d9fd601b0a1f4ffe462f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 27/58] fix: keep the line endings of version_checker.py

---
 edulint/versions/version_checker.py | 242 ++++++++++++++--------------
 1 file changed, 121 insertions(+), 121 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 185dba1..b8d2d24 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,121 +1,121 @@
-from typing import Any, Dict, Optional, Tuple
-import os
-import json
-from dataclasses import dataclass
-import time
-from pathlib import Path
-
-from platformdirs import PlatformDirs
-from dataclasses_json import dataclass_json
-
-from edulint.versions import pypi_helper
-from edulint.versions.utils import Version
-
-def current_timestamp() -> int:
-    return int(time.time())
-
-
-@dataclass_json
-@dataclass
-class PackageInfo:
-    version: Optional[str] = None
-    last_update_started: int = 0
-
-
-class PackageInfoManager:
-    @staticmethod
-    def get_local_module_version(package_name: str) -> Optional[str]:
-        try:
-            from importlib.metadata import version  # This is only available in Python >= 3.8
-            return version(package_name)
-        except:
-            pass
-
-        try:
-            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
-            return pkg_resources.get_distribution(package_name).version
-        except:
-            pass
-
-        return None
-
-    @staticmethod
-    def _create_json_file_if_doesnt_exist(filepath: str):
-        if os.path.exists(filepath):
-            return
-        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
-        with open(filepath, "w", encoding="utf8") as f:
-            f.write("{}")
-
-    @classmethod
-    def _package_info_path(cls):
-        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
-        cls._create_json_file_if_doesnt_exist(filepath)
-        return filepath 
-
-    @classmethod
-    def _load_data(cls) -> Dict[str, Any]:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            try:
-                data = json.load(f)
-            except ValueError:  # corrupted, e.g. by a concurrent or interrupted write
-                return {}
-        return data if isinstance(data, dict) else {}
-
-    @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        data = cls._load_data()
-
-        package_info = PackageInfo.from_dict(data.get(package_name, {}))
-
-        if version:
-            package_info.version = version
-        if last_update_started:
-            package_info.last_update_started = last_update_started
-            
-        data[package_name] = package_info.to_dict()
-        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
-            json.dump(data, f, indent=4)
-        
-        return package_info
-
-    @classmethod
-    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        data = cls._load_data()
-        return PackageInfo.from_dict(data.get(package_name, {}))
-
-    @classmethod
-    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
-        try:
-            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
-            versions = pypi_helper.get_versions(package_name)
-            # pip does not upgrade to prereleases on its own
-            latest_version_str = str(max(v for v in versions if not v.is_prerelease))
-            cls._save_package_info_locally(package_name, version=latest_version_str)
-            return latest_version_str
-        except Exception as _:
-            return None
-
-    @classmethod
-    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
-        local_package_version = cls.get_local_module_version(package_name)
-        if local_package_version is None: # unable to determine local package version
-            return False
-
-        latest_version = cls.get_latest_version(package_name, ttl)
-        
-        if latest_version is None:  # unable to determine the latest version
-            return False
-
-        local, latest = Version.parse(local_package_version), Version.parse(latest_version)
-        return local is not None and latest is not None and local < latest
-
-
-if __name__ == "__main__":
-    print("START")
-    print(PackageInfoManager.get_latest_version("edulint"))
-    print("END")
+from typing import Any, Dict, Optional, Tuple
+import os
+import json
+from dataclasses import dataclass
+import time
+from pathlib import Path
+
+from platformdirs import PlatformDirs
+from dataclasses_json import dataclass_json
+
+from edulint.versions import pypi_helper
+from edulint.versions.utils import Version
+
+def current_timestamp() -> int:
+    return int(time.time())
+
+
+@dataclass_json
+@dataclass
+class PackageInfo:
+    version: Optional[str] = None
+    last_update_started: int = 0
+
+
+class PackageInfoManager:
+    @staticmethod
+    def get_local_module_version(package_name: str) -> Optional[str]:
+        try:
+            from importlib.metadata import version  # This is only available in Python >= 3.8
+            return version(package_name)
+        except:
+            pass
+
+        try:
+            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
+            return pkg_resources.get_distribution(package_name).version
+        except:
+            pass
+
+        return None
+
+    @staticmethod
+    def _create_json_file_if_doesnt_exist(filepath: str):
+        if os.path.exists(filepath):
+            return
+        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
+        with open(filepath, "w", encoding="utf8") as f:
+            f.write("{}")
+
+    @classmethod
+    def _package_info_path(cls):
+        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
+        cls._create_json_file_if_doesnt_exist(filepath)
+        return filepath 
+
+    @classmethod
+    def _load_data(cls) -> Dict[str, Any]:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            try:
+                data = json.load(f)
+            except ValueError:  # corrupted, e.g. by a concurrent or interrupted write
+                return {}
+        return data if isinstance(data, dict) else {}
+
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        data = cls._load_data()
+
+        package_info = PackageInfo.from_dict(data.get(package_name, {}))
+
+        if version:
+            package_info.version = version
+        if last_update_started:
+            package_info.last_update_started = last_update_started
+            
+        data[package_name] = package_info.to_dict()
+        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
+            json.dump(data, f, indent=4)
+        
+        return package_info
+
+    @classmethod
+    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
+        data = cls._load_data()
+        return PackageInfo.from_dict(data.get(package_name, {}))
+
+    @classmethod
+    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
+        package_info = cls._get_package_info_locally(package_name)
+        if current_timestamp() < package_info.last_update_started + ttl:
+            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
+        try:
+            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
+            versions = pypi_helper.get_versions(package_name)
+            # pip does not upgrade to prereleases on its own
+            latest_version_str = str(max(v for v in versions if not v.is_prerelease))
+            cls._save_package_info_locally(package_name, version=latest_version_str)
+            return latest_version_str
+        except Exception as _:
+            return None
+
+    @classmethod
+    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+        local_package_version = cls.get_local_module_version(package_name)
+        if local_package_version is None: # unable to determine local package version
+            return False
+
+        latest_version = cls.get_latest_version(package_name, ttl)
+        
+        if latest_version is None:  # unable to determine the latest version
+            return False
+
+        local, latest = Version.parse(local_package_version), Version.parse(latest_version)
+        return local is not None and latest is not None and local < latest
+
+
+if __name__ == "__main__":
+    print("START")
+    print(PackageInfoManager.get_latest_version("edulint"))
+    print("END")
-- 
2.43.0


From bb972a7eaaae338a9d14e4633da1e477918b61a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 28/58] fix: build the control flow of match, try-finally and
 exception handlers

---
 edulint/linting/analyses/cfg/graph.py   |   3 +
 edulint/linting/analyses/cfg/visitor.py | 192 ++++++++++++++++++------
 2 files changed, 151 insertions(+), 44 deletions(-)

diff --git a/edulint/linting/analyses/cfg/graph.py b/edulint/linting/analyses/cfg/graph.py
index f734422..6273e20 100644
--- a/edulint/linting/analyses/cfg/graph.py
+++ b/edulint/linting/analyses/cfg/graph.py
@@ -235,6 +235,9 @@ class CFGBlock:
             assert self.locs[pos].node in (statement.name, first_body_node)
         elif isinstance(statement, nodes.With):
             pos = len(self.locs)
+        elif isinstance(statement, nodes.Match):
+            pos = len(self.locs) - 1
+            assert self.locs[pos].node == statement.subject
         else:
             assert False, f"unreachable, but {type(statement)}"
         return pos
diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 1a3c32c..90ee86a 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -48,6 +48,7 @@ class CFGVisitor:
         self._current_cfg = None
         self._current_block = None
         self._control_boundaries = []
+        self._try_depth = 0
 
     def __getattr__(self, attr: str):
         if attr.startswith("visit_"):
@@ -58,6 +59,7 @@ class CFGVisitor:
     def visit_generic(self, node: nodes.NodeNG) -> None:
         """By default, add the expression to the end of the current block."""
         if self._current_block is not None:
+            self._start_statement()
             self._current_block.add_statement(node)
 
     def visit_module(self, module: nodes.Module) -> None:
@@ -87,10 +89,12 @@ class CFGVisitor:
         functions_to_render = self.options.get("functions", [])
 
         if self._current_block is not None:
+            self._start_statement()
             self._current_block.add_statement(node)
 
         previous_cfg = self._current_cfg
         previous_block = self._current_block
+        previous_try_depth, self._try_depth = self._try_depth, 0
 
         self.cfgs[node] = ControlFlowGraph(self.cfg_count)
         self.cfg_count += 1
@@ -110,6 +114,7 @@ class CFGVisitor:
 
         self._current_block = previous_block
         self._current_cfg = previous_cfg
+        self._try_depth = previous_try_depth
 
     def visit_asyncfunctiondef(self, func: nodes.AsyncFunctionDef) -> None:
         self.visit_functiondef(func)
@@ -127,10 +132,12 @@ class CFGVisitor:
                 return
 
         if self._current_block is not None:
+            self._start_statement()
             self._current_block.add_statement(func)
 
         previous_cfg = self._current_cfg
         previous_block = self._current_block
+        previous_try_depth, self._try_depth = self._try_depth, 0
 
         self.cfgs[func] = ControlFlowGraph(self.cfg_count)
         self.cfg_count += 1
@@ -160,12 +167,14 @@ class CFGVisitor:
 
         self._current_block = previous_block
         self._current_cfg = previous_cfg
+        self._try_depth = previous_try_depth
 
     def visit_if(self, node: nodes.If) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
         if self._current_cfg is None:
             return
 
+        self._start_statement()
         separate_conditions = self.options.get("separate-condition-blocks", False)
         if separate_conditions:
             # Create a block for the test condition
@@ -256,6 +265,8 @@ class CFGVisitor:
         if self._current_cfg is None:
             return
 
+        self._start_statement()
+
         old_curr = self._current_block
         old_curr.add_statement(node.iter)
         old_curr.add_CF_statement(node)
@@ -312,6 +323,7 @@ class CFGVisitor:
         if self._current_cfg is None:
             return
 
+        self._start_statement()
         old_curr = self._current_block
         old_curr.add_statement(node)
         for boundary, exits in reversed(self._control_boundaries):
@@ -335,40 +347,70 @@ class CFGVisitor:
 
         if self._current_block.locs != []:
             self._current_block = self._current_cfg.create_block(self._current_block)
-        node_block = self._current_block
+        before_blocks = [edge.source for edge in self._current_block.predecessors]
 
-        # Construct the exception handlers first
-        # Initialize a temporary block to later merge with end_body
-        self._current_block = self._current_cfg.create_block()
-        temp = self._current_block
+        handler_blocks = [self._current_cfg.create_block() for _ in node.handlers]
         finally_block = self._current_cfg.create_block()
         end_block = self._current_cfg.create_block()
-        # Case where Raise is not handled in the try block
-        self._control_boundaries.append((node, {nodes.Raise.__name__: end_block}))
-        cbs_added = 1
-
-        after_body = []
-        # Construct blocks in reverse to give precedence to the first block in overlapping except
-        # branches
-        for handler in reversed(node.handlers):
-            h = self._current_cfg.create_block()
-            self._current_block = h
 
+        if node.finalbody != []:
+            # every way out of the statement leads through the finally block
+            self._control_boundaries.append(
+                (
+                    node,
+                    {
+                        jump.__name__: finally_block
+                        for jump in (nodes.Return, nodes.Raise, nodes.Break, nodes.Continue)
+                    },
+                )
+            )
+
+        # Construct the body. In reverse to give precedence to the first block in overlapping
+        # except branches
+        for handler, h in zip(reversed(node.handlers), reversed(handler_blocks)):
             exceptions = _extract_exceptions(handler)
             # Edge case: catch-all except clause (i.e. except: ...)
-            if exceptions == []:
-                self._control_boundaries.append((node, {nodes.Raise.__name__: h}))
-                cbs_added += 1
+            names = [f"{nodes.Raise.__name__} {exc}" for exc in exceptions] or [nodes.Raise.__name__]
+            self._control_boundaries.append((node, {name: h for name in names}))
+
+        self._try_depth += 1
+        for child in node.body:
+            child.accept(self)
+        self._try_depth -= 1
+        end_body = self._current_block
+
+        for _ in node.handlers:
+            self._control_boundaries.pop()
+
+        assert len(node.body) > 0
+        # the first block may have been overtaken by link_or_merge
+        node.body[0].cfg_loc.block.add_CF_statement(node)
+
+        # Any statement of the body may raise an exception
+        raising_blocks = before_blocks + self._get_blocks_in(node.body)
+        for h in handler_blocks:
+            for block in raising_blocks:
+                self._link_once(block, h)
 
-            # General case: specific except clause
-            for exception in exceptions:
-                self._control_boundaries.append((node, {f"{nodes.Raise.__name__} {exception}": h}))
-                cbs_added += 1
+        if node.orelse != []:
+            else_block = self._current_cfg.create_block()
+            self._current_cfg.link_or_merge(end_body, else_block)
+            self._current_block = else_block
+            self._try_depth += node.finalbody != []
+            for child in node.orelse:
+                child.accept(self)
+            self._try_depth -= node.finalbody != []
+            end_body = self._current_block
+        self._current_cfg.link_or_merge(end_body, finally_block)
 
+        for handler, h in zip(node.handlers, handler_blocks):
+            self._current_block = h
+            self._try_depth += node.finalbody != []
             if handler.name is not None:  # The name assigned to the caught exception.
                 handler.name.accept(self)
             for child in handler.body:
                 child.accept(self)
+            self._try_depth -= node.finalbody != []
             end_handler = self._current_block
 
             if len(h.locs) == 0:
@@ -379,42 +421,95 @@ class CFGVisitor:
                 h.add_CF_statement(handler)
 
             self._current_cfg.link_or_merge(end_handler, finally_block)
-            after_body.append(h)
 
-        if node.orelse == []:
-            after_body.append(finally_block)
+        if node.finalbody == []:
+            self._current_cfg.link_or_merge(finally_block, end_block)
         else:
-            self._current_block = self._current_cfg.create_block()
-            after_body.append(self._current_block)
-            for child in node.orelse:
+            self._control_boundaries.pop()
+            for block in raising_blocks + self._get_blocks_in(node.handlers + node.orelse):
+                self._link_once(block, finally_block)
+            jumps = {
+                type(edge.source.locs[-1].node).__name__ for edge in finally_block.predecessors
+            } & {nodes.Return.__name__, nodes.Break.__name__, nodes.Continue.__name__}
+
+            self._current_block = finally_block
+            for child in node.finalbody:
                 child.accept(self)
-            self._current_cfg.link_or_merge(self._current_block, finally_block)
+            targets = [end_block]
+            for jump in sorted(jumps) + [nodes.Raise.__name__]:
+                for _boundary, exits in reversed(self._control_boundaries):
+                    if jump in exits:
+                        if exits[jump] not in targets:
+                            targets.append(exits[jump])
+                        break
+            self._current_cfg.multiple_link_or_merge(self._current_block, targets)
+        self._current_block = end_block
 
-        # Construct the try body so reset current block to this node's block
-        self._current_block = node_block
+    def _get_blocks_in(self, statements: List[nodes.NodeNG]) -> List[CFGBlock]:
+        """Blocks of the current cfg with a part of given statements."""
+        blocks: Dict[CFGBlock, None] = {}
+        for statement in statements:
+            for child in statement.nodes_of_class(nodes.NodeNG):
+                if hasattr(child, "cfg_loc") and child.cfg_loc.block.cfg is self._current_cfg:
+                    blocks[child.cfg_loc.block] = None
+        return list(blocks)
+
+    def _link_once(self, source: CFGBlock, target: CFGBlock) -> None:
+        if all(edge.target is not target for edge in source.successors):
+            self._current_cfg.link(source, target)
+
+    def _start_statement(self) -> None:
+        """Separates statements that may be interrupted by an exception."""
+        if self._try_depth > 0 and self._current_block.locs != []:
+            self._current_block = self._current_cfg.create_block(self._current_block)
 
-        for child in node.body:
-            child.accept(self)
-        end_body = self._current_block
+    def visit_trystar(self, node: nodes.TryStar) -> None:
+        self.visit_try(node)
 
-        assert len(node.body) > 0
-        # do not use node_block, because it may be overtaken by link_or_merge
-        node.body[0].cfg_loc.block.add_CF_statement(node)
+    def visit_match(self, node: nodes.Match) -> None:
+        # When only creating cfgs for functions, _current_cfg will only be None outside of functions
+        if self._current_cfg is None:
+            return
 
-        # Remove each control boundary that we added in this method
-        for _ in range(cbs_added):
-            self._control_boundaries.pop()
+        self._start_statement()
+        self._current_block.add_statement(node.subject)
+        self._current_block.add_CF_statement(node)
+        # blocks from which the matching may continue to the next case
+        unmatched = [self._current_block]
+        after_match_block = self._current_cfg.create_block()
+
+        for case in node.cases:
+            # names are bound only if the whole pattern matches
+            pattern_block = self._current_cfg.create_block()
+            for block in unmatched:
+                self._current_cfg.link(block, pattern_block)
+            pattern_block.add_statement(case.pattern)
+            if case.guard is not None:
+                pattern_block.add_statement(case.guard)
+                unmatched.append(pattern_block)
+
+            self._current_block = self._current_cfg.create_block(pattern_block)
+            for child in case.body:
+                child.accept(self)
+            self._current_cfg.link_or_merge(self._current_block, after_match_block)
 
-        self._current_cfg.link_or_merge(temp, end_body)
-        self._current_cfg.multiple_link_or_merge(end_body, after_body)
-        self._current_cfg.link_or_merge(finally_block, end_block)
-        self._current_block = end_block
+        if not _is_irrefutable(node.cases[-1]):
+            for block in unmatched:
+                self._current_cfg.link(block, after_match_block)
+        self._current_block = after_match_block
+
+    def visit_asyncfor(self, node: nodes.AsyncFor) -> None:
+        self.visit_for(node)
+
+    def visit_asyncwith(self, node: nodes.AsyncWith) -> None:
+        self.visit_with(node)
 
     def visit_with(self, node: nodes.With) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
         if self._current_cfg is None:
             return
 
+        self._start_statement()
         self._current_block.add_CF_statement(node)
         for context_node, name in node.items:
             self._current_block.add_statement(context_node)
@@ -425,6 +520,15 @@ class CFGVisitor:
             child.accept(self)
 
 
+def _is_irrefutable(case: nodes.MatchCase) -> bool:
+    """Whether the case matches anything."""
+    return (
+        case.guard is None
+        and isinstance(case.pattern, nodes.MatchAs)
+        and case.pattern.pattern is None
+    )
+
+
 def _extract_exceptions(node: nodes.ExceptHandler) -> List[str]:
     """A helper method that returns a list of all the exceptions handled by this except block as a
     list of strings.
-- 
2.43.0


From d7e47ada4b2aadef09d9a50d445d88d9876e191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 29/58] fix: antiunify all fields and types of constants

---
 edulint/linting/analyses/antiunify.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index 5343dfe..c5c141d 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -65,12 +65,20 @@ ASTROID_EXTRA_FIELDS = {
     nodes.UnaryOp: ("op",),
     nodes.AugAssign: ("op",),
     nodes.FunctionDef: ("name",),
+    nodes.AsyncFunctionDef: ("name",),
+    nodes.ClassDef: ("name",),
+    nodes.Arguments: ("vararg", "kwarg"),
+    nodes.AnnAssign: ("simple",),
+    nodes.Comprehension: ("is_async",),
+    nodes.FormattedValue: ("conversion",),
+    nodes.MatchClass: ("kwd_attrs",),
     nodes.Const: ("value",),
     nodes.Nonlocal: ("names",),
     nodes.Global: ("names",),
     nodes.ImportFrom: (
         "modname",
         "names",
+        "level",
     ),
     nodes.Import: ("names",),
     nodes.Keyword: ("arg",),
@@ -106,7 +114,8 @@ class Antiunify:
         return avar, [avar]
 
     def _aunify_consts(self, vals: List[Any], stop_on: Callable[[List[AunifyVar]], bool]):
-        if all(v == vals[0] for v in vals):
+        # repr distinguishes values that are equal, but not the same, such as 0, 0.0, -0.0 and False
+        if all(type(v) is type(vals[0]) and repr(v) == repr(vals[0]) for v in vals):
             return vals[0], []
 
         return self._new_aunifier(vals, stop_on)
-- 
2.43.0


From 465a8042801521b4aef5b20a365ad10adf073253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 30/58] fix: do not crash on abs() with other than one argument

---
 edulint/linting/analyses/z3_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index 3bb90a9..4dd4279 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -102,6 +102,8 @@ def _is_abs_function(node: nodes.NodeNG) -> bool:
         isinstance(node, nodes.Call)
         and isinstance(node.func, nodes.Name)
         and node.func.name == "abs"
+        and len(node.args) == 1
+        and len(node.keywords) == 0
     )
 
 
-- 
2.43.0


From 6fe63708ec1fecab55d86235cf00fd877da99831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 31/58] fix: do not crash on names bound by patterns and
 destructuring with, or on decorated functions

---
 edulint/linting/analyses/data_dependency.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 6edfadf..82e2881 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -599,12 +599,21 @@ def get_assigned_expressions(
         else:
 
             parents = [def_event.node]
-            while not isinstance(parent, _ASSIGNING_EXPRESSIONS + _ASSIGNING_ITERS):
+            while not isinstance(
+                parent,
+                _ASSIGNING_EXPRESSIONS + _ASSIGNING_ITERS + (nodes.With, nodes.MatchCase),
+            ):
                 parents.append(parent)
                 parent = parent.parent
             assigning = parent
 
-            if isinstance(assigning, _ASSIGNING_ITERS):
+            if isinstance(assigning, nodes.With):
+                if type(assigning) in include_nodes:
+                    yield assigning
+            elif isinstance(assigning, nodes.MatchCase):
+                if nodes.MatchAs in include_nodes:
+                    yield parents[1]
+            elif isinstance(assigning, _ASSIGNING_ITERS):
                 if include_destructuring:
                     yield assigning.iter
             else:
@@ -790,9 +799,9 @@ def _get_defs_at_rec(
 
         explored_functions.add(function)
         # resolved calls
-        var_events = list(function.cfg_loc.var_events.all())
-        assert len(var_events) == 1 and var_events[0][0].name == function.name
-        event = var_events[0][1]
+        event = next(
+            event for _var, event in function.cfg_loc.var_events.all() if event.node == function
+        )
         for use in event.uses:
             end_nodes.append(use.node)
 
-- 
2.43.0


From 08c0d05dd0d638a0204b223df7e630d13b72b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 32/58] fix: recognize match statements among statements

---
 edulint/linting/analyses/cfg/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/cfg/utils.py b/edulint/linting/analyses/cfg/utils.py
index 90fe845..e8dbc8e 100644
--- a/edulint/linting/analyses/cfg/utils.py
+++ b/edulint/linting/analyses/cfg/utils.py
@@ -412,8 +412,13 @@ def get_stmt_locs(loc: CFGLoc) -> Tuple[Optional[CFGLoc], Optional[CFGLoc]]:
             return None, None
         return loc, None
 
-    if (isinstance(parent, (nodes.If, nodes.While)) and loc.node == parent.test) or (
-        isinstance(parent, nodes.For) and loc.node == parent.iter
+    if isinstance(parent, nodes.MatchCase) and loc.node in (parent.pattern, parent.guard):
+        return None, None
+
+    if (
+        (isinstance(parent, (nodes.If, nodes.While)) and loc.node == parent.test)
+        or (isinstance(parent, nodes.For) and loc.node == parent.iter)
+        or (isinstance(parent, nodes.Match) and loc.node == parent.subject)
     ):
         return None, parent.cfg_loc
 
-- 
2.43.0


From 468c7499c1ed1751e264ade89f0754df29e51c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 33/58] fix: do not crash on a loop variable changed by
 something else than a number

---
 edulint/linting/checkers/unsuited_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 495c925..5472e67 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -128,7 +128,7 @@ class UnsuitedLoop(BaseChecker):
                         const = get_const_value(binop.right)
                     if binop.right.as_string() == node.as_string():
                         const = get_const_value(binop.left)
-            if const is None:
+            if not isinstance(const, int):
                 return None
 
             return const if op == "+" else -const
-- 
2.43.0


From ce16300707ea91345d397a2b6931d092a414279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 34/58] fix: do not merge branches with del, declarations or
 different operators

---
 edulint/linting/checkers/simplifiable_if.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 55e54a4..3887087 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -538,7 +538,12 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         if isinstance(node1, nodes.Return):
             return node1.value is not None and node2.value is not None
 
-        if is_any_assign(node1) and not isinstance(node1, nodes.For):
+        if is_any_assign(node1) and not isinstance(node1, (nodes.For, nodes.Delete)):
+            if node1.value is None or node2.value is None:  # AnnAssign-style declaration
+                return False
+            if isinstance(node1, nodes.AugAssign) and node1.op != node2.op:
+                return False
+
             assigned_to1 = get_assigned_to(node1)
             assigned_to2 = get_assigned_to(node2)
             return (
-- 
2.43.0


From 2bdab9ea972227bdf20a0052fa551837097e7c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 35/58] fix: do not crash on a list multiplied by a list

---
 edulint/linting/checkers/local_defects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 983c7ce..3f99b94 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -312,12 +312,12 @@ class Local(BaseChecker):
                 and elem.func.name in ("list", "set", "dict")
             )
 
-        if node.op != "*" or (
-            not isinstance(node.left, nodes.List) and not isinstance(node.right, nodes.List)
+        # exactly one of the operands has to be a list
+        if node.op != "*" or isinstance(node.left, nodes.List) == isinstance(
+            node.right, nodes.List
         ):
             return
 
-        assert not isinstance(node.left, nodes.List) or not isinstance(node.right, nodes.List)
         lst = node.left if isinstance(node.left, nodes.List) else node.right
 
         if any(is_mutable(elem) for elem in lst.elts):
-- 
2.43.0


From 606dadc6e62ad21bc50b32c753584aa9c8b68077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 36/58] fix: attribute names to the scopes Python binds them in

---
 edulint/linting/analyses/cfg/utils.py      |  20 +-
 edulint/linting/analyses/variable_scope.py | 313 +++++++++++++--------
 2 files changed, 212 insertions(+), 121 deletions(-)

diff --git a/edulint/linting/analyses/cfg/utils.py b/edulint/linting/analyses/cfg/utils.py
index e8dbc8e..ba4047a 100644
--- a/edulint/linting/analyses/cfg/utils.py
+++ b/edulint/linting/analyses/cfg/utils.py
@@ -383,12 +383,30 @@ def predecessors_from_loc(
     )
 
 
+ARGUMENTS_EVALUATED_OUTSIDE = (
+    "defaults",
+    "kw_defaults",
+    "annotations",
+    "posonlyargs_annotations",
+    "kwonlyargs_annotations",
+    "varargannotation",
+    "kwargannotation",
+)
+
+
 def get_cfg_loc(in_stmt: nodes.NodeNG) -> CFGLoc:
     """Returns the CFGLoc of this node or its closest parent."""
     while not hasattr(in_stmt, "cfg_loc"):
-        in_stmt = in_stmt.parent
+        child, in_stmt = in_stmt, in_stmt.parent
         assert in_stmt is not None
 
+        # these are evaluated when the function is defined, not when it is called
+        if isinstance(in_stmt, nodes.Arguments) and any(
+            child is value or (isinstance(value, list) and any(child is v for v in value))
+            for value in (getattr(in_stmt, attr) for attr in ARGUMENTS_EVALUATED_OUTSIDE)
+        ):
+            in_stmt = in_stmt.parent
+
     return in_stmt.cfg_loc
 
 
diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 465ef7f..48a989b 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -4,7 +4,7 @@ from typing import Dict, List, Union, Optional, Iterator, Tuple, Set
 
 from astroid import nodes
 
-from edulint.linting.analyses.cfg.utils import get_cfg_loc
+from edulint.linting.analyses.cfg.utils import get_cfg_loc, ARGUMENTS_EVALUATED_OUTSIDE
 from edulint.linting.analyses.utils import BaseVisitor, is_builtin
 from edulint.linting.analyses.var_events import (
     VarEventType,
@@ -29,10 +29,114 @@ class VarEventsAnalysis:
         )
 
 
+_COMPREHENSION_SCOPES = (nodes.GeneratorExp, nodes.ListComp, nodes.DictComp, nodes.SetComp)
+
+
+def _arguments_evaluated_outside(args: nodes.Arguments) -> List[nodes.NodeNG]:
+    """Defaults and annotations, which are evaluated when the function is defined."""
+    return [
+        node
+        for attr in ARGUMENTS_EVALUATED_OUTSIDE
+        for value in [getattr(args, attr)]
+        for node in (value if isinstance(value, list) else [value])
+        if node is not None
+    ]
+
+
+def _evaluated_outside(node: nodes.NodeNG) -> List[nodes.NodeNG]:
+    """Parts of a node that creates a scope, which are evaluated in the surrounding scope."""
+    if isinstance(node, (nodes.FunctionDef, nodes.ClassDef)):
+        result = [node.decorators] if node.decorators is not None else []
+        if isinstance(node, nodes.ClassDef):
+            return result + node.bases + node.keywords
+        result.extend(_arguments_evaluated_outside(node.args))
+        return result + ([node.returns] if node.returns is not None else [])
+    if isinstance(node, nodes.Lambda):
+        return _arguments_evaluated_outside(node.args)
+    if isinstance(node, _COMPREHENSION_SCOPES):
+        return [node.generators[0].iter]
+    return []
+
+
+class Scope:
+    """Variables accessible by name directly in one scope.
+
+    Attributes:
+        node (ScopeNode): The node creating the scope.
+        names (Dict[VarName, ScopeNode]): Names bound or declared in this scope with scopes of their
+          variables.
+        init_nodes (Dict[VarName, nodes.NodeNG]): Nodes that bound (declared) the names most recently.
+    """
+
+    def __init__(self, node: ScopeNode, outer: List["Scope"]):
+        self.node = node
+        self.names: Dict[VarName, ScopeNode] = {}
+        self.init_nodes: Dict[VarName, nodes.NodeNG] = {}
+        self.later: List[nodes.NodeNG] = []
+
+        self.declared: Dict[VarName, nodes.NodeNG] = {}
+        if isinstance(node, nodes.Module):
+            for declaration in node.nodes_of_class(nodes.Global):
+                for name in declaration.names:
+                    self.names[name] = node
+
+        if isinstance(node, _COMPREHENSION_SCOPES):
+            for generator in node.generators:
+                self._bind(generator.target, in_comprehension=False)
+        else:
+            if isinstance(node, (nodes.Lambda, nodes.FunctionDef)):
+                for arg in node.args.arguments:
+                    self.names[arg.name] = node
+            for child in node.body if isinstance(node.body, list) else [node.body]:
+                self._bind(child, in_comprehension=False)
+
+        for name, declaration in self.declared.items():
+            if isinstance(declaration, nodes.Global):
+                self.names[name] = node.root()
+            else:
+                for scope in reversed(outer):
+                    if name in scope.names and not isinstance(scope.node, nodes.ClassDef):
+                        self.names[name] = scope.names[name]
+                        break
+
+    def _bind(self, node: nodes.NodeNG, in_comprehension: bool) -> None:
+        """Collects names bound by given node in this scope."""
+        if isinstance(node, (nodes.AssignName, nodes.DelName)):
+            if not in_comprehension or isinstance(node.parent, nodes.NamedExpr):
+                self.names[node.name] = self.node
+        elif isinstance(node, (nodes.FunctionDef, nodes.ClassDef)):
+            self.names[node.name] = self.node
+        elif isinstance(node, (nodes.Import, nodes.ImportFrom)):
+            for name in _imported_names(node):
+                self.names[name] = self.node
+        elif isinstance(node, (nodes.Global, nodes.Nonlocal)):
+            for name in node.names:
+                self.declared[name] = node
+
+        if isinstance(node, (nodes.Lambda, nodes.FunctionDef, nodes.ClassDef)):
+            children = _evaluated_outside(node)
+        else:
+            children = node.get_children()
+            in_comprehension |= isinstance(node, _COMPREHENSION_SCOPES)
+        for child in children:
+            self._bind(child, in_comprehension)
+
+
+def _imported_names(node: Union[nodes.Import, nodes.ImportFrom]) -> Iterator[VarName]:
+    for module, alias in node.names:
+        if alias is not None:
+            yield alias
+        elif isinstance(node, nodes.Import):
+            yield module.split(".")[0]
+        else:
+            yield module
+
+
 def in_new_scope(func):
-    def inner(self, *args, **kwargs):
-        self.stack.append({})
-        result = func(self, *args, **kwargs)
+    def inner(self, node, *args, **kwargs):
+        self.stack.append(Scope(node, self.stack))
+        result = func(self, node, *args, **kwargs)
+        self.visit_later()
         self.stack.pop()
         return result
 
@@ -49,7 +153,7 @@ class VarEventListener(BaseVisitor[None]):
     )
 
     def __init__(self):
-        self.stack: List[Dict[VarName, Tuple[nodes.NodeNG, ScopeNode]]] = []
+        self.stack: List[Scope] = []
         self.variables: Set[Variable] = set()
         self.function_defs: List[nodes.FunctionDef] = []
         self.call_graph: Dict[ScopeNode, Set[ScopeNode]] = defaultdict(set)  # caller, calees
@@ -87,14 +191,14 @@ class VarEventListener(BaseVisitor[None]):
         ):
             loc = loc.node.args.cfg_loc
 
-        name_scope = self._get_var_node_scope(name)
+        accessed = self._get_var_scope(name)
         # assert scope is not None or VarEventListener.may_be_unscoped(
         #     name, name_node, loc.node
         # ), f"but {name_node.as_string()}, {loc.node.as_string()}"
-        if name_scope is None:
+        if accessed is None:
             return
 
-        init_name_node, scope = name_scope
+        scope = accessed.names[name]
         var = Variable(name, scope)
         event = VarEvent(var, name_node, action)
         loc.var_events.add(var, event)
@@ -102,125 +206,98 @@ class VarEventListener(BaseVisitor[None]):
         self.variables.add(var)
 
         if isinstance(name_node.parent, nodes.Call) and name_node == name_node.parent.func:
-            self.call_graph[name_node.scope()].add(init_name_node)
+            init_name_node = accessed.init_nodes.get(name)
+            if init_name_node is not None:
+                self.call_graph[name_node.scope()].add(init_name_node)
 
-        read_scope = (
-            name_node.scope()
-            if not isinstance(name_node, nodes.FunctionDef)
-            else name_node.parent.scope()
-        )
-        if isinstance(name_node, nodes.FunctionDef):
-            read_scope = name_node.parent.scope()
-        else:
-            read_scope = name_node
-            while not isinstance(read_scope, ScopeNode):
-                read_scope = read_scope.parent
-
-        while scope != read_scope:
-            self.outside_scope_events[read_scope].append(event)
-            read_scope = read_scope.parent
-
-    def _get_var_scope_index(self, name: VarName) -> Optional[int]:
-        for i, name_scope in enumerate(reversed(self.stack), 1):
-            if name in name_scope:
-                return -i
+        for read in reversed(self.stack):
+            if read.node == scope:
+                break
+            self.outside_scope_events[read.node].append(event)
+
+    def _get_var_scope(self, name: VarName) -> Optional[Scope]:
+        for i, scope in enumerate(reversed(self.stack)):
+            # names of classes are not accessible from inner scopes
+            if name in scope.names and (i == 0 or not isinstance(scope.node, nodes.ClassDef)):
+                return self._get_declared_scope(name, scope)
         return None
 
-    def _get_var_node_scope(self, name: VarName) -> Optional[Tuple[nodes.NodeNG, ScopeNode]]:
-        scope_index = self._get_var_scope_index(name)
-        if scope_index is None:
-            return None
-        return self.stack[scope_index][name]
+    def _get_declared_scope(self, name: VarName, scope: Scope) -> Scope:
+        """Returns the scope that keeps the last binding of the name."""
+        if scope.names[name] != scope.node:
+            for outer in self.stack:
+                if outer.node == scope.names[name] and name in outer.names:
+                    return outer
+        return scope
 
     def _init_var_in_scope(self, name: VarName, name_node: nodes.NodeNG) -> None:
-        was_defined = name in self.stack[-1]
-
-        if name not in self.stack[-1]:
-            scope = (
-                name_node.scope()
-                if not isinstance(
-                    name_node, (nodes.FunctionDef, nodes.AsyncFunctionDef, nodes.ClassDef)
-                )
-                else name_node.parent.scope()
-            )
-        else:
-            name_scope = self._get_var_node_scope(name)
-            assert name_scope is not None
-            _name, scope = name_scope
+        i = len(self.stack) - 1
+        if isinstance(name_node.parent, nodes.NamedExpr):
+            while isinstance(self.stack[i].node, _COMPREHENSION_SCOPES):
+                i -= 1
+
+        scope = self.stack[i]
+        was_defined = name in scope.init_nodes or name in scope.declared
 
-        self.stack[-1][name] = (name_node, scope)
+        if name in scope.names:
+            scope.init_nodes[name] = name_node
+            self._get_declared_scope(name, scope).init_nodes[name] = name_node
         self._add_var_event(
             name, name_node, VarEventType.ASSIGN if not was_defined else VarEventType.REASSIGN
         )
 
     def _del_var_from_scope(self, name: VarName, node: nodes.NodeNG):
         self._add_var_event(name, node, VarEventType.DELETE)
-        scope_index = self._get_var_scope_index(name)
-        if scope_index is None:
-            return
-
-        self.stack[scope_index].pop(name)
-
-    def statements_before_definitions(
-        self, node: Union[nodes.Module, nodes.FunctionDef, nodes.AsyncFunctionDef]
-    ):
-        later = []
-        for child in node.body:
-            if not isinstance(child, (nodes.FunctionDef, nodes.AsyncFunctionDef, nodes.ClassDef)):
-                self.visit(child)
+        self.stack[-1].init_nodes.pop(name, None)
+
+    def visit_later(self) -> None:
+        """Visits bodies of functions and classes defined in the current scope"""
+        while len(self.stack[-1].later) > 0:
+            node = self.stack[-1].later.pop(0)
+            if isinstance(node, nodes.ClassDef):
+                self._visit_class_body(node)
             else:
-                self._init_var_in_scope(child.name, child)
-                later.append(child)
-        return later
+                self._visit_function_body(node)
 
     @in_new_scope
     def visit_module(self, node: nodes.Module):
-        return self.visit_many(self.statements_before_definitions(node))
-
-    @in_new_scope
-    def visit_functiondef(self, node: nodes.FunctionDef):
-        self.function_defs.append(node)
+        return self.visit_many(node.body)
 
-        # args
-        for ann in node.args.annotations:
-            if ann is not None:
-                self.visit(ann)
+    def _visit_definition(self, node: Union[nodes.FunctionDef, nodes.ClassDef]) -> None:
+        self.visit_many(_evaluated_outside(node))
+        self._init_var_in_scope(node.name, node)
+        self.stack[-1].later.append(node)
 
-        for arg in node.args.arguments:
-            self._init_var_in_scope(arg.name, arg)
-
-        for default in node.args.defaults:
-            self.visit(default)
-
-        # posonly
-        for ann in node.args.posonlyargs_annotations:
-            if ann is not None:
-                self.visit(ann)
+    def visit_functiondef(self, node: nodes.FunctionDef):
+        self._visit_definition(node)
+        return self.default
 
-        # kwonly
-        for ann in node.args.kwonlyargs_annotations:
-            if ann is not None:
-                self.visit(ann)
+    def visit_asyncfunctiondef(self, node: nodes.AsyncFunctionDef):
+        return self.visit_functiondef(node)
 
-        # vararg
-        if node.args.varargannotation is not None:
-            self.visit(node.args.varargannotation)
+    def visit_classdef(self, node: nodes.ClassDef):
+        self._visit_definition(node)
+        return self.default
 
-        # kwarg
-        if node.args.kwargannotation is not None:
-            self.visit(node.args.kwargannotation)
+    @in_new_scope
+    def _visit_function_body(self, node: nodes.FunctionDef):
+        self.function_defs.append(node)
 
-        return self.visit_many(self.statements_before_definitions(node))
+        for arg in node.args.arguments:
+            self._init_var_in_scope(arg.name, arg)
 
-    def visit_asyncfunctiondef(self, node: nodes.AsyncFunctionDef):
-        self.visit_functiondef(node)
+        return self.visit_many(node.body)
 
     @in_new_scope
-    def visit_classdef(self, node: nodes.ClassDef):
-        return self.visit_many(self.statements_before_definitions(node))
+    def _visit_class_body(self, node: nodes.ClassDef):
+        return self.visit_many(node.body)
 
-    @in_new_scope
     def visit_lambda(self, node: nodes.Lambda):
+        self.visit_many(_evaluated_outside(node))
+        return self._visit_lambda_body(node)
+
+    @in_new_scope
+    def _visit_lambda_body(self, node: nodes.Lambda):
         for arg in node.args.arguments:
             self._init_var_in_scope(arg.name, arg)
 
@@ -229,40 +306,35 @@ class VarEventListener(BaseVisitor[None]):
     def _visit_generator(
         self, node: Union[nodes.GeneratorExp, nodes.ListComp, nodes.DictComp, nodes.SetComp]
     ):
-        self.visit_many(node.generators)
+        self.visit_many(_evaluated_outside(node))
+        return self._visit_generator_body(node)
+
+    @in_new_scope
+    def _visit_generator_body(
+        self, node: Union[nodes.GeneratorExp, nodes.ListComp, nodes.DictComp, nodes.SetComp]
+    ):
+        for i, generator in enumerate(node.generators):
+            if i > 0:
+                self.visit(generator.iter)
+            self.visit(generator.target)
+            self.visit_many(generator.ifs)
         if isinstance(node, nodes.DictComp):
             self.visit(node.key)
             return self.visit(node.value)
         return self.visit(node.elt)
 
-    @in_new_scope
     def visit_generatorexp(self, node: nodes.GeneratorExp):
         return self._visit_generator(node)
 
-    @in_new_scope
     def visit_listcomp(self, node: nodes.ListComp):
         return self._visit_generator(node)
 
-    @in_new_scope
     def visit_dictcomp(self, node: nodes.DictComp):
         return self._visit_generator(node)
 
-    @in_new_scope
     def visit_setcomp(self, node: nodes.SetComp):
         return self._visit_generator(node)
 
-    def visit_global(self, node: nodes.Global):
-        for name in node.names:
-            self.stack[-1][name] = (node, node.root().scope())
-
-        return self.default
-
-    def visit_nonlocal(self, node: nodes.Nonlocal):
-        for name in node.names:
-            self.stack[-1][name] = (node, node.scope().parent.scope())
-
-        return self.default
-
     def _visit_assigned_to(self, node: nodes.NodeNG) -> None:
         if isinstance(node, nodes.AssignName):
             self._init_var_in_scope(node.name, node)
@@ -306,7 +378,9 @@ class VarEventListener(BaseVisitor[None]):
         self.visit(node.annotation)
         if node.value is not None:
             self.visit(node.value)
-        self._visit_assigned_to(node.target)
+        # a declaration without a value assigns nothing
+        if node.value is not None or not isinstance(node.target, nodes.AssignName):
+            self._visit_assigned_to(node.target)
         return self.default
 
     def visit_delname(self, node: nodes.DelName):
@@ -314,8 +388,7 @@ class VarEventListener(BaseVisitor[None]):
         return self.default
 
     def visit_import(self, node: nodes.Import):
-        for module, alias in node.names:
-            name = module if alias is None else alias
+        for name in _imported_names(node):
             self._init_var_in_scope(name, node)
         return self.default
 
-- 
2.43.0


From ffc411822b78162a43e4a9061d2932331ed866a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 37/58] fix: find variables in metaclass arguments of classes

---
 edulint/linting/analyses/variable_scope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 48a989b..c984513 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -48,7 +48,9 @@ def _evaluated_outside(node: nodes.NodeNG) -> List[nodes.NodeNG]:
     if isinstance(node, (nodes.FunctionDef, nodes.ClassDef)):
         result = [node.decorators] if node.decorators is not None else []
         if isinstance(node, nodes.ClassDef):
-            return result + node.bases + node.keywords
+            # astroid keeps the metaclass apart from the other keywords
+            metaclass = [node._metaclass] if node._metaclass is not None else []
+            return result + node.bases + node.keywords + metaclass
         result.extend(_arguments_evaluated_outside(node.args))
         return result + ([node.returns] if node.returns is not None else [])
     if isinstance(node, nodes.Lambda):
-- 
2.43.0


From 9a9e6d2a6d040c6a970d052247e6a27fe042b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 38/58] fix: start the control flow of classes and separate
 parts of with in try

---
 edulint/linting/analyses/cfg/visitor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 90ee86a..e04a82c 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -100,7 +100,7 @@ class CFGVisitor:
         self.cfg_count += 1
         self._current_cfg = self.cfgs[node]
 
-        self._current_block = self._current_cfg.create_block()
+        self._current_block = self._current_cfg.start
 
         for child in node.body:
             if functions_to_render:
@@ -511,9 +511,12 @@ class CFGVisitor:
 
         self._start_statement()
         self._current_block.add_CF_statement(node)
-        for context_node, name in node.items:
+        for i, (context_node, name) in enumerate(node.items):
+            if i > 0:
+                self._start_statement()
             self._current_block.add_statement(context_node)
             if name is not None:
+                self._start_statement()
                 self._current_block.add_statement(name)
 
         for child in node.body:
-- 
2.43.0


From a77ab94fb547ee840a5bb1aedb5b62d56d2dfd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 39/58] fix: analyse an exception raised in the body of a class
 inside try

---
 edulint/linting/analyses/data_dependency.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 82e2881..87edf0d 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -295,7 +295,8 @@ def collect_reaching_definitions(  # blocks fun gen kills
             result = defaultdict(int)
             for edge in block.predecessors:
                 parent = edge.source
-                if not parent.reachable:
+                # an exception may also come from the body of a class, analysed on its own
+                if not parent.reachable or parent not in blocks:
                     continue
 
                 for var_i, val in computed_kills[init_occupied_blocks + blocks[parent]].items():
-- 
2.43.0


From a61f1bdf51d75664649dc5d86582b65d3234d054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 40/58] fix: Python rounds // down also for a negative divisor

---
 edulint/linting/analyses/z3_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index 4dd4279..fb6d833 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -323,7 +323,9 @@ def convert_condition_to_z3_expression(
             modulo = get_const_value(node.right)
             z3_expr = left % get_const_value(node.right) if modulo > 1 else None
         elif node.op == "//":
-            z3_expr = left / get_const_value(node.right)
+            # Z3 rounds so that the remainder is not negative, Python rounds down
+            divisor = get_const_value(node.right)
+            z3_expr = left / divisor if divisor > 0 else (-left) / (-divisor)
         elif node.op == "/":
             z3_expr = left / float(get_const_value(node.right))
         elif node.op == "+":
-- 
2.43.0


From 1464313f51b72f1119336d3af76579f3e024a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 41/58] fix: do not suggest an assignment for an augmented
 assignment

---
 edulint/linting/checkers/simplifiable_if.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 3887087..fffdbad 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -538,11 +538,11 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         if isinstance(node1, nodes.Return):
             return node1.value is not None and node2.value is not None
 
-        if is_any_assign(node1) and not isinstance(node1, (nodes.For, nodes.Delete)):
+        if is_any_assign(node1) and not isinstance(
+            node1, (nodes.For, nodes.Delete, nodes.AugAssign)
+        ):
             if node1.value is None or node2.value is None:  # AnnAssign-style declaration
                 return False
-            if isinstance(node1, nodes.AugAssign) and node1.op != node2.op:
-                return False
 
             assigned_to1 = get_assigned_to(node1)
             assigned_to2 = get_assigned_to(node2)
-- 
2.43.0


From 72cd288c244fe4608b434b5b50ef27f511bbf529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 42/58] fix: keep brackets in the suggestion of no-is-bool

---
 edulint/linting/checkers/local_defects.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 3f99b94..1ac41d9 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -343,6 +343,9 @@ class Local(BaseChecker):
                 self.add_message("unreachable-else", node=node.orelse[0].orelse[0])
 
     def _check_no_is(self, node: nodes.Compare) -> None:
+        def with_brackets(val: nodes.NodeNG, *kinds: type) -> str:
+            return f"({val.as_string()})" if isinstance(val, kinds) else val.as_string()
+
         for i, (op, val) in enumerate(node.ops):
             if (
                 op in ("is", "is not")
@@ -351,12 +354,18 @@ class Local(BaseChecker):
             ):
                 prev_val = node.ops[i - 1][1] if i > 0 else node.left
                 negate = (op == "is") != val.value
+                loose = (nodes.BoolOp, nodes.IfExp, nodes.Lambda, nodes.NamedExpr)
+                tight = loose + (nodes.Compare,)
+                if isinstance(prev_val, nodes.UnaryOp) and prev_val.op == "not":
+                    tight += (nodes.UnaryOp,)
                 self.add_message(
                     "no-is-bool",
                     node=node,
                     args=(
-                        f"{'not ' if negate else ''}{prev_val.as_string()}",
-                        f"{prev_val.as_string()} {op} {val.as_string()}",
+                        f"not {with_brackets(prev_val, *loose)}"
+                        if negate
+                        else prev_val.as_string(),
+                        f"{with_brackets(prev_val, *tight)} {op} {val.as_string()}",
                     ),
                 )
 
-- 
2.43.0


From 5c042a4a4855f24d47869746c682e752b337b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 43/58] fix: keep brackets in the suggested chained comparison
 or in range

---
 edulint/linting/checkers/local_defects.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 1ac41d9..8c76ab8 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -529,6 +529,14 @@ class Local(BaseChecker):
             if isinstance(node, (nodes.BinOp, nodes.UnaryOp)):
                 return f"({node.as_string()})"
 
+            return compare_operand(node)
+
+        def compare_operand(node: nodes.NodeNG) -> str:
+            if isinstance(node, (nodes.Compare, nodes.BoolOp, nodes.IfExp)) or (
+                isinstance(node, nodes.UnaryOp) and node.op == "not"
+            ):
+                return f"({node.as_string()})"
+
             return node.as_string()
 
         def get_value_plus_constant(node: nodes.NodeNG) -> Optional[Tuple[str, int]]:
@@ -645,8 +653,8 @@ class Local(BaseChecker):
 
         left_compare = "<="
         right_compare = "<"
-        left = start.as_string()
-        right = stop.as_string()
+        left = compare_operand(start)
+        right = compare_operand(stop)
 
         if step_val < 0:
             left_compare, right_compare, left, right = right_compare, left_compare, right, left
-- 
2.43.0


From 34805d4e31bab40b180cad45771d27840d0e667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 44/58] fix: do not take % comparisons with other remainders
 than 0 and 1 for negations

---
 edulint/linting/analyses/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 26d08be..0a0ac11 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -643,20 +643,23 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         if op not in ("==", "!=") or is_mod_two(left) == is_mod_two(right):
             return False
 
-        # MAYBE check if value equal to mod is 0 or 1?
         return True
 
     def mod_two_negation(lt: nodes.NodeNG, rt: nodes.NodeNG):
         if not is_eq_mod_two(lt) or not is_eq_mod_two(rt):
             return False
 
-        lt_lt, (_, lt_rt) = lt.left, lt.ops[0]
-        rt_lt, (_, rt_rt) = rt.left, rt.ops[0]
+        lt_lt, (lt_op, lt_rt) = lt.left, lt.ops[0]
+        rt_lt, (rt_op, rt_rt) = rt.left, rt.ops[0]
 
         lt_mod, lt_val = (lt_lt, lt_rt) if is_mod_two(lt_lt) else (lt_rt, lt_lt)
         rt_mod, rt_val = (rt_lt, rt_rt) if is_mod_two(rt_lt) else (rt_rt, rt_lt)
 
-        return have_same_value(lt_mod.left, rt_mod.left) and not have_same_value(lt_val, rt_val)
+        return (
+            lt_op == rt_op
+            and have_same_value(lt_mod.left, rt_mod.left)
+            and (get_const_value(lt_val), get_const_value(rt_val)) in ((0, 1), (1, 0))
+        )
 
     lt, negated_rt = strip_nots(lt, negated_rt)
     rt, negated_rt = strip_nots(rt, negated_rt)
-- 
2.43.0


From 1734ba6db5662674ab7ac3f0061e0f1cf0d0b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 45/58] fix: do not take chained comparisons for negations of
 each other

---
 edulint/linting/analyses/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 0a0ac11..157aaa0 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -681,7 +681,8 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         if negated_rt and ops_match(lt, rt, lambda op: op):
             return all_are_negations(to_values(lt), to_values(rt), negated_rt)
 
-        if not negated_rt and ops_match(lt, rt, lambda op: NEGATED_OP[op]):
+        # a < b < c is not the opposite of a >= b >= c
+        if not negated_rt and len(lt.ops) == 1 and ops_match(lt, rt, lambda op: NEGATED_OP[op]):
             return all_are_negations(to_values(lt), to_values(rt), not negated_rt)
 
         if not negated_rt and mod_two_negation(lt, rt):
-- 
2.43.0


From 641ad88243adea5d340213b80e58e875dee66049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 46/58] fix: keep brackets of operands in merged comparisons
 and merge only whole calls

---
 edulint/linting/checkers/simplifiable_if.py | 42 +++++++++++++++++----
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index fffdbad..9206972 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import ast
+
 from astroid import nodes  # type: ignore
 from astroid import extract_node
 from typing import TYPE_CHECKING, Optional, Tuple, Union, List, Any, Dict, Set
@@ -165,6 +167,27 @@ class PairsOfModComparisonsWithNum:
         return True
 
 
+def operand_as_string(node: nodes.NodeNG) -> str:
+    """The node as an operand of a comparison."""
+    if isinstance(node, (nodes.BoolOp, nodes.Compare, nodes.IfExp, nodes.Lambda)) or (
+        isinstance(node, nodes.UnaryOp) and node.op == "not"
+    ):
+        return f"({node.as_string()})"
+    return node.as_string()
+
+
+def is_call_of(function: str, expression: str, min_args: int) -> bool:
+    call = ast.parse(expression, mode="eval").body
+    return (
+        isinstance(call, ast.Call)
+        and isinstance(call.func, ast.Name)
+        and call.func.id == function
+        and len(call.args) >= min_args
+        and len(call.keywords) == 0
+        and not any(isinstance(arg, ast.Starred) for arg in call.args)
+    )
+
+
 def add_brackets_if_composed(node: nodes.NodeNG, is_standalone: bool) -> str:
     return (
         node.as_string()
@@ -1489,7 +1512,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         return [cmp2, const2]
 
     def _add_abs_if_necessary(self, expr_string: str) -> str:
-        if expr_string.startswith("abs("):
+        if is_call_of("abs", expr_string, min_args=1):
             return expr_string + " "
 
         return "abs(" + expr_string + ") "
@@ -1716,7 +1739,9 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             if len(current_group) < 2:
                 continue
 
-            self._suggestion_for_group_of_boolops(expr1.as_string(), current_group, node)
+            self._suggestion_for_group_of_boolops(
+                operand_as_string(expr1), current_group, node
+            )
 
     def _update_comparisons(
         self,
@@ -1789,7 +1814,8 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         all_switched_or_all_not_switched = True
 
         for i in range(len(expressions)):
-            if expressions[i].startswith(function):
+            # the only argument would be an iterable of values
+            if is_call_of(function[:-1], expressions[i], min_args=2):
                 result.append(expressions[i][4:-1])
             else:
                 result.append(expressions[i])
@@ -2243,7 +2269,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
                 comparison_operands.append(operand)
                 self._update_comparisons(
                     comparisons_with_numbers,
-                    operand[0].as_string(),
+                    operand_as_string(operand[0]),
                     operand[1],
                     str(operand[2]),
                     value.ops[0][0] != operand[1],
@@ -2251,16 +2277,16 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             elif self._is_comparison_not_between_numbers(value):
                 self._update_comparisons(
                     comparisons,
-                    value.left.as_string(),
+                    operand_as_string(value.left),
                     value.ops[0][0],
-                    value.ops[0][1].as_string(),
+                    operand_as_string(value.ops[0][1]),
                     False,
                 )
                 self._update_comparisons(
                     comparisons,
-                    value.ops[0][1].as_string(),
+                    operand_as_string(value.ops[0][1]),
                     self.SWITCHED_COMPARATOR[value.ops[0][0]],
-                    value.left.as_string(),
+                    operand_as_string(value.left),
                     True,
                 )
             elif node_is_or and self._is_conjunction_of_two_equalities(value):
-- 
2.43.0


From 0342e43539ff281fdafbbd5d3d5fad329674f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 47/58] fix: the target of a for loop is not assigned when the
 loop ends

---
 edulint/linting/analyses/data_dependency.py | 25 +++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 87edf0d..90ad2ef 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -282,6 +282,19 @@ def collect_reaching_definitions(  # blocks fun gen kills
                 )
             )
 
+    def passes_by(edge) -> bool:
+        """
+        The target of a for loop is assigned only when the body is to be entered.
+        """
+        target = edge.source.locs[0].node
+        loop = target.parent
+        if not isinstance(loop, nodes.For) or target != loop.target:
+            return False
+        if len(edge.target.locs) == 0:
+            return True
+        node = edge.target.locs[0].node
+        return not any(stmt == node or stmt.parent_of(node) for stmt in loop.body)
+
     def collect_kills_from_parents(computed_kills, all_parent_kills, blocks, init_occupied_blocks):
         for block in blocks:
             if len(block.predecessors) == 0:
@@ -296,7 +309,7 @@ def collect_reaching_definitions(  # blocks fun gen kills
             for edge in block.predecessors:
                 parent = edge.source
                 # an exception may also come from the body of a class, analysed on its own
-                if not parent.reachable or parent not in blocks:
+                if not parent.reachable or parent not in blocks or passes_by(edge):
                     continue
 
                 for var_i, val in computed_kills[init_occupied_blocks + blocks[parent]].items():
@@ -325,7 +338,8 @@ def collect_reaching_definitions(  # blocks fun gen kills
                     continue
                 j = blocks[edge.target]
                 child_kills = all_parent_kills[init_occupied_blocks + j]
-                for var_i, val in updated:
+                passing = list(parent_kills.items()) if passes_by(edge) else updated
+                for var_i, val in passing:
                     if val & child_kills[var_i] != val:
                         child_kills[var_i] |= val
                         if (j, edge.target) not in to_process:
@@ -359,8 +373,11 @@ def collect_reaching_definitions(  # blocks fun gen kills
 
         module_kills = defaultdict(list)
         for block, block_i in blocks.items():
-            if any(len(edge.target.locs) == 0 for edge in block.successors):
-                for var_i, val in computed_kills[init_occupied_blocks + block_i].items():
+            for edge in block.successors:
+                if len(edge.target.locs) > 0:
+                    continue
+                kills_by_block = all_parent_kills if passes_by(edge) else computed_kills
+                for var_i, val in kills_by_block[init_occupied_blocks + block_i].items():
                     for index in ones_indices(val):
                         for kill_event in original_gens_kills[index][1][var_i][-1]:
                             module_kills[var_i].append(kill_event)
-- 
2.43.0


From 274b83306da2b2209e990bf78d32bb8f83380bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 48/58] fix: do not suggest a condition for while True with an
 else branch

---
 edulint/linting/checkers/unsuited_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 5472e67..1d2036e 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -100,7 +100,7 @@ class UnsuitedLoop(BaseChecker):
     }
 
     def _check_no_while_true(self, node: nodes.While) -> None:
-        if not isinstance(node.test, nodes.Const) or not node.test.bool_value():
+        if not isinstance(node.test, nodes.Const) or not node.test.bool_value() or node.orelse:
             return
 
         first = node.body[0]
-- 
2.43.0


From 6849904d7420ed0ae985babf9b0fedf9298e856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 49/58] fix: do not suggest a for loop for a variable
 subtracted from a constant

---
 edulint/linting/checkers/unsuited_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 1d2036e..38cc599 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -126,7 +126,7 @@ class UnsuitedLoop(BaseChecker):
                     op = binop.op
                     if binop.left.as_string() == node.as_string():
                         const = get_const_value(binop.right)
-                    if binop.right.as_string() == node.as_string():
+                    if op == "+" and binop.right.as_string() == node.as_string():
                         const = get_const_value(binop.left)
             if not isinstance(const, int):
                 return None
-- 
2.43.0


From 42b8139d5dfad509eb0d4f1e6441ffb19e0b858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 50/58] fix: suggest tighter boundaries only if the loop does
 the same

---
 edulint/linting/checkers/unsuited_loop.py | 46 ++++++++++++++++++-----
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 38cc599..9521f9a 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -24,6 +24,7 @@ from edulint.linting.analyses.data_dependency import (
     MODIFYING_EVENTS,
     get_events_for,
     get_events_by_var,
+    modified_in,
     filter_events_for,
 )
 from edulint.linting.analyses.mutability import vars_from_node_may_be_modified_in
@@ -260,6 +261,16 @@ class UnsuitedLoop(BaseChecker):
         ):
             self._check_infinite_loop(node)
 
+    @staticmethod
+    def _is_target_used_outside_body(node: nodes.For) -> bool:
+        var = node_to_var(node.target)
+        return var is None or any(
+            not any(stmt.parent_of(use.node) for stmt in node.body)
+            for event in get_events_for([var], [node.target], MODIFYING_EVENTS)
+            for use in event.uses
+        )
+
+    @requires_data_dependency_analysis()
     def _check_use_tighter_bounds(self, node: nodes.For) -> None:
         def compares_equality(node: nodes.NodeNG) -> bool:
             return isinstance(node, nodes.Compare) and len(node.ops) == 1 and node.ops[0][0] == "=="
@@ -271,10 +282,20 @@ class UnsuitedLoop(BaseChecker):
                 left == start.as_string() and right == var
             )
 
-        def is_last_before_end(node: nodes.NodeNG, stop: nodes.NodeNG, step: nodes.NodeNG) -> bool:
+        def is_last_before_end(node: nodes.NodeNG) -> bool:
             const_node = get_const_value(node)
+            const_start = get_const_value(start)
             const_stop = get_const_value(stop)
             const_step = get_const_value(step)
+            if const_step not in (1, -1) and not (
+                isinstance(const_start, int)
+                and isinstance(const_stop, int)
+                and isinstance(const_step, int)
+                and const_step != 0
+                and (const_stop - const_start) % const_step == 0
+            ):
+                return False
+
             return (
                 isinstance(node, nodes.BinOp)
                 and node.op == "-"
@@ -287,14 +308,15 @@ class UnsuitedLoop(BaseChecker):
                 and const_node == const_stop - const_step
             )
 
-        def compares_to_last_before_end(
-            node: nodes.Compare, var: str, stop: nodes.NodeNG, step: nodes.NodeNG
-        ) -> bool:
+        def compares_to_last_before_end(node: nodes.Compare, var: str) -> bool:
             left, (_, right) = node.left, node.ops[0]
-            return (left.as_string() == var and is_last_before_end(right, stop, step)) or (
-                is_last_before_end(left, stop, step) and right.as_string() == var
+            return (left.as_string() == var and is_last_before_end(right)) or (
+                is_last_before_end(left) and right.as_string() == var
             )
 
+        def may_change(boundary: nodes.NodeNG) -> bool:
+            return modified_in(list(vars_in(boundary).keys()), node.body)
+
         def relevant_nodes(body: List[nodes.NodeNG]) -> Iterator[nodes.If]:
             first = body[0]
             if isinstance(first, nodes.If):
@@ -320,12 +342,18 @@ class UnsuitedLoop(BaseChecker):
             if (
                 compares_equality(test)
                 and len(if_.body) == 1
+                and not self._is_target_used_outside_body(node)
                 and type(if_.body[-1]) in (nodes.Break, nodes.Continue)
             ):
+                jump = if_.body[-1]
                 if compares_to_start(test, var, start):
-                    self.add_message("use-tighter-boundaries", node=node, args=("first",))
-                elif compares_to_last_before_end(test, var, stop, step):
-                    self.add_message("use-tighter-boundaries", node=node, args=("last",))
+                    if isinstance(jump, nodes.Continue) and not may_change(start):
+                        self.add_message("use-tighter-boundaries", node=node, args=("first",))
+                elif compares_to_last_before_end(test, var):
+                    if not may_change(stop) and not (
+                        isinstance(jump, nodes.Break) and len(node.orelse) > 0
+                    ):
+                        self.add_message("use-tighter-boundaries", node=node, args=("last",))
             # TODO expand, tips: len(node.body) == 1, isinstance(if_.body[-1], nodes.Return), allow nodes in the middle,
             #                    allow longer bodies
 
-- 
2.43.0


From 13c05f2c188efcfdedeee77154f927f042383e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 51/58] fix: a break of an inner loop does not leave the outer
 one

---
 edulint/linting/checkers/unsuited_loop.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 9521f9a..500590d 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -371,6 +371,21 @@ class UnsuitedLoop(BaseChecker):
             node = node.next_sibling()
         return node
 
+    @staticmethod
+    def _is_followed_by_leaving(node: nodes.NodeNG, loop: nodes.For) -> bool:
+        """Checks if the block with the node ends by leaving the loop for good."""
+        last = UnsuitedLoop._get_last_block_line(node)
+        if isinstance(last, nodes.Return):
+            return True
+        if not isinstance(last, nodes.Break):
+            return False
+
+        while last != loop and not (
+            isinstance(last.parent, (nodes.For, nodes.While)) and last in last.parent.body
+        ):
+            last = last.parent
+        return last.parent == loop
+
     @requires_data_dependency_analysis()
     def _check_modifying_iterable(self, node: nodes.For) -> None:
         iterated = node.iter
@@ -391,9 +406,7 @@ class UnsuitedLoop(BaseChecker):
             if (
                 event.type == VarEventType.MODIFY
                 and event.is_direct_modify()
-                and not isinstance(
-                    self._get_last_block_line(event.node), (nodes.Break, nodes.Return)
-                )
+                and not self._is_followed_by_leaving(event.node, node)
             ):
                 self.add_message(
                     "modifying-iterated-structure", node=event.node.parent, args=iterated_var.name
@@ -471,7 +484,7 @@ class UnsuitedLoop(BaseChecker):
                     (e.type == VarEventType.MODIFY and e.is_direct_modify())
                     or (e.type not in (VarEventType.READ, VarEventType.MODIFY))
                 )
-                and not isinstance(self._get_last_block_line(e.node), (nodes.Break, nodes.Return))
+                and not self._is_followed_by_leaving(e.node, node)
                 for e in structure_events
             )
 
-- 
2.43.0


From a64a0d16c2f21e512689e849daae9cde67da18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 52/58] fix: do not suggest to drop an index used after the
 loop

---
 edulint/linting/checkers/unsuited_loop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 500590d..6a7299a 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -548,7 +548,9 @@ class UnsuitedLoop(BaseChecker):
         ):
             return
 
-        if is_index_used_outside_subscript(events_by_var[index_var], structure):
+        if is_index_used_outside_subscript(
+            events_by_var[index_var], structure
+        ) or self._is_target_used_outside_body(node):
             self.add_message("use-enumerate", args=(index_var.name, structure_var.name), node=node)
         else:
             self.add_message("use-foreach", args=structure_var.name, node=node)
-- 
2.43.0


From f242cfdd5ca3fade0bb0fc019146b40cb6300da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 53/58] fix: record modifications and reads in the order they
 are executed

---
 edulint/linting/analyses/variable_scope.py | 66 ++++++++++++----------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index c984513..fa2c252 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -3,6 +3,7 @@ import re
 from typing import Dict, List, Union, Optional, Iterator, Tuple, Set
 
 from astroid import nodes
+from astroid.const import Context
 
 from edulint.linting.analyses.cfg.utils import get_cfg_loc, ARGUMENTS_EVALUATED_OUTSIDE
 from edulint.linting.analyses.utils import BaseVisitor, is_builtin
@@ -340,13 +341,12 @@ class VarEventListener(BaseVisitor[None]):
     def _visit_assigned_to(self, node: nodes.NodeNG) -> None:
         if isinstance(node, nodes.AssignName):
             self._init_var_in_scope(node.name, node)
-        self.visit_many(node.get_children())
+        else:
+            self.visit(node)
 
+    def _modify(self, node: nodes.NodeNG) -> None:
         stripped = strip_to_name(node)
-        if stripped is None:
-            return
-
-        if isinstance(node, (nodes.AssignAttr, nodes.Subscript)):
+        if stripped is not None:
             self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
 
     def _names_from_tuple(self, targets: List[nodes.NodeNG]) -> Iterator[nodes.NodeNG]:
@@ -369,12 +369,15 @@ class VarEventListener(BaseVisitor[None]):
         return self.default
 
     def visit_augassign(self, node: nodes.AugAssign):
-        stripped = strip_to_name(node.target)
-        if stripped is not None:
-            self._add_var_event(stripped.name, stripped, VarEventType.READ)
-
-        self.visit(node.value)
-        self._visit_assigned_to(node.target)
+        if isinstance(node.target, nodes.AssignName):
+            self._add_var_event(node.target.name, node.target, VarEventType.READ)
+            self.visit(node.value)
+            self._init_var_in_scope(node.target.name, node.target)
+        else:
+            self.visit_many(node.target.get_children())
+            self.visit(node.value)
+            self._modify(node.target)
+        return self.default
 
     def visit_annassign(self, node: nodes.AnnAssign):
         self.visit(node.annotation)
@@ -385,6 +388,11 @@ class VarEventListener(BaseVisitor[None]):
             self._visit_assigned_to(node.target)
         return self.default
 
+    def visit_namedexpr(self, node: nodes.NamedExpr):
+        self.visit(node.value)
+        self._visit_assigned_to(node.target)
+        return self.default
+
     def visit_delname(self, node: nodes.DelName):
         self._del_var_from_scope(node.name, node)
         return self.default
@@ -403,7 +411,14 @@ class VarEventListener(BaseVisitor[None]):
                 f"call to {node.func.as_string()} on line {node.fromlineno} in {node.root().file}; "
                 " unable to determine variable scopes. This may disable some detectors."
             )
-        return self.visit_many(node.get_children())
+        self.visit_many(node.get_children())
+
+        for child in node.get_children():
+            if isinstance(child, nodes.Attribute) and VarEventListener.NON_PURE_METHODS.match(
+                child.attrname
+            ):
+                self._modify(child)
+        return self.default
 
     def visit_for(self, node: nodes.For):
         return self.visit_many(node.get_children())
@@ -411,26 +426,15 @@ class VarEventListener(BaseVisitor[None]):
     def visit_name(self, node: nodes.Name) -> None:
         self._add_var_event(node.name, node, VarEventType.READ)
 
-    def visit_attribute(self, node: nodes.Attribute) -> None:
-        stripped = strip_to_name(node)
-        if (
-            isinstance(node.parent, nodes.Call)
-            and VarEventListener.NON_PURE_METHODS.match(node.attrname)
-            and stripped is not None
-        ):
-            self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
-
-        return self.visit_many(node.get_children())
+    def visit_subscript(self, node: nodes.Subscript) -> None:
+        self.visit_many(node.get_children())
+        if node.ctx != Context.Load:
+            self._modify(node)
 
     def visit_assignattr(self, node: nodes.AssignAttr) -> None:
-        stripped = strip_to_name(node)
-        if stripped is not None:
-            self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
-
-        return self.visit_many(node.get_children())
+        self.visit_many(node.get_children())
+        self._modify(node)
 
     def visit_delattr(self, node: nodes.DelAttr) -> None:
-        stripped = strip_to_name(node)
-        if stripped is None:
-            return
-        self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
+        self.visit_many(node.get_children())
+        self._modify(node)
-- 
2.43.0


From 6f4803742729a74d8f70c87a0385e0225084efdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 54/58] fix: an exception in the body of a for loop may follow
 the assignment of its target

---
 edulint/linting/analyses/data_dependency.py | 28 +++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 90ad2ef..3e2355b 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -295,6 +295,24 @@ def collect_reaching_definitions(  # blocks fun gen kills
         node = edge.target.locs[0].node
         return not any(stmt == node or stmt.parent_of(node) for stmt in loop.body)
 
+    def may_follow_exception(edge) -> bool:
+        """
+        The first statement of the body of a for loop may raise an exception after the target is assigned.
+        """
+        loop = edge.source.locs[0].node.parent
+        if len(edge.target.locs) == 0:
+            return False
+        handled, node = edge.target.locs[0].node, None
+        while handled is not None:
+            if (
+                isinstance(handled, nodes.Try)
+                and (node in handled.handlers or node in handled.finalbody)
+                and handled.parent_of(loop)
+            ):
+                return True
+            handled, node = handled.parent, handled
+        return False
+
     def collect_kills_from_parents(computed_kills, all_parent_kills, blocks, init_occupied_blocks):
         for block in blocks:
             if len(block.predecessors) == 0:
@@ -309,7 +327,9 @@ def collect_reaching_definitions(  # blocks fun gen kills
             for edge in block.predecessors:
                 parent = edge.source
                 # an exception may also come from the body of a class, analysed on its own
-                if not parent.reachable or parent not in blocks or passes_by(edge):
+                if not parent.reachable or parent not in blocks:
+                    continue
+                if passes_by(edge) and not may_follow_exception(edge):
                     continue
 
                 for var_i, val in computed_kills[init_occupied_blocks + blocks[parent]].items():
@@ -338,7 +358,11 @@ def collect_reaching_definitions(  # blocks fun gen kills
                     continue
                 j = blocks[edge.target]
                 child_kills = all_parent_kills[init_occupied_blocks + j]
-                passing = list(parent_kills.items()) if passes_by(edge) else updated
+                passing = updated
+                if passes_by(edge):
+                    passing = list(parent_kills.items())
+                    if may_follow_exception(edge):
+                        passing.extend(updated)
                 for var_i, val in passing:
                     if val & child_kills[var_i] != val:
                         child_kills[var_i] |= val
-- 
2.43.0


From 0d586b39a76a608485cfd80c3d3e9e21dee12907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:04 +0000
Subject: [PATCH 55/58] fix: conditionally evaluated assignments and methods of
 unknown objects need not replace a value

---
 edulint/linting/analyses/data_dependency.py | 130 ++++++++++++++++----
 1 file changed, 109 insertions(+), 21 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 3e2355b..8609795 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -94,6 +94,50 @@ def get_uncalled_functions(function_defs, call_graph):
     }
 
 
+def _get_ancestors_in_statement(
+    node: nodes.NodeNG,
+) -> Iterator[Tuple[nodes.NodeNG, nodes.NodeNG]]:
+    """Yields ancestors of the node in its statement, each with its child on the way to the node"""
+    while not node.is_statement and node.parent is not None:
+        yield node.parent, node
+        node = node.parent
+
+
+def _is_in_iteration(parent: nodes.NodeNG, child: nodes.NodeNG) -> bool:
+    """Returns true iff the child is evaluated repeatedly by the comprehension it is part of"""
+    if isinstance(parent, nodes.Comprehension):
+        return parent != parent.parent.generators[0] or child != parent.iter
+    return isinstance(
+        parent, (nodes.ListComp, nodes.SetComp, nodes.DictComp, nodes.GeneratorExp)
+    ) and not isinstance(child, nodes.Comprehension)
+
+
+def is_conditional(node: nodes.NodeNG) -> bool:
+    """Returns true iff the node need not be evaluated when its statement is"""
+    return any(
+        (isinstance(parent, nodes.BoolOp) and child != parent.values[0])
+        or (isinstance(parent, nodes.IfExp) and child != parent.test)
+        or (isinstance(parent, nodes.Compare) and child in [n for _op, n in parent.ops[1:]])
+        or (isinstance(parent, nodes.Assert) and child == parent.fail)
+        or isinstance(parent, nodes.MatchOr)
+        or _is_in_iteration(parent, child)
+        for parent, child in _get_ancestors_in_statement(node)
+    )
+
+
+def used_in_next_iteration(event: VarEvent, loc: CFGLoc) -> Iterator[VarEvent]:
+    """Yields uses of the variable that may follow the event in the same comprehension"""
+    for parent, child in _get_ancestors_in_statement(event.node):
+        if _is_in_iteration(parent, child):
+            comp = parent.parent if isinstance(parent, nodes.Comprehension) else parent
+            for use in loc.var_events.for_var(event.var):
+                if use.type in GENERATING_EVENTS and any(
+                    (p == comp or p.parent == comp) and _is_in_iteration(p, c)
+                    for p, c in _get_ancestors_in_statement(use.node)
+                ):
+                    yield use
+
+
 def collect_gens_kill(
     block: CFGBlock,
 ) -> Tuple[Dict[Variable, List[VarEvent]], Dict[Variable, List[VarEvent]]]:
@@ -176,6 +220,20 @@ def collect_reaching_definitions(  # blocks fun gen kills
         dfs(start)
         return collected
 
+    def get_surely_killed(call: nodes.Call, possible_callees) -> Set[Variable]:
+        if isinstance(call.func, nodes.Attribute):
+            # a method need not be any of the known functions
+            return set()
+        killed = [
+            {
+                event.var
+                for event in collect_events_in_called(call_graph, outside_scope_events, callee)
+                if event.type in KILLING_EVENTS and event.type != VarEventType.MODIFY
+            }
+            for callee in possible_callees
+        ]
+        return set.intersection(*killed) if len(killed) > 0 else set()
+
     def collect_original_kills(
         var_to_index: Dict[Variable, int],
         index_to_block: List[CFGBlock],
@@ -189,6 +247,7 @@ def collect_reaching_definitions(  # blocks fun gen kills
             blocks[block] = len(blocks)
             index_to_block.append(block)
             gens, kill = defaultdict(list), defaultdict(list)
+            unsure = set()  # variables that may keep the value they had before the block
             for loc in block.locs:
                 for call in get_calls(loc.node):
                     if isinstance(call.func, nodes.Name):
@@ -207,6 +266,7 @@ def collect_reaching_definitions(  # blocks fun gen kills
                         unresolved_calls.append(call)
                         possible_callees = function_defs
 
+                    surely_killed = get_surely_killed(call, possible_callees)
                     for called_fun in possible_callees:
                         for in_call_event in collect_events_in_called(
                             call_graph, outside_scope_events, called_fun
@@ -219,9 +279,9 @@ def collect_reaching_definitions(  # blocks fun gen kills
 
                             in_call_var_i = var_to_index[in_call_event.var]
                             if in_call_event.type in GENERATING_EVENTS:
-                                if len(kill[in_call_var_i]) == 0:
+                                if len(kill[in_call_var_i]) == 0 or in_call_var_i in unsure:
                                     gens[in_call_var_i].append(in_call_event)
-                                else:
+                                if len(kill[in_call_var_i]) > 0:
                                     for kill_event in kill[in_call_var_i][-1]:
                                         if kill_event not in in_call_event.definitions:
                                             in_call_event.definitions.append(kill_event)
@@ -234,35 +294,59 @@ def collect_reaching_definitions(  # blocks fun gen kills
                                             in_call_event.redefines.append(kill_event)
                                             kill_event.redefined_by.append(in_call_event)
                                 else:
+                                    if in_call_event.var not in surely_killed:
+                                        unsure.add(in_call_var_i)
                                     kill[in_call_var_i].append([])
+                                if in_call_var_i in unsure and len(kill[in_call_var_i]) > 1:
+                                    kill[in_call_var_i][0].append(in_call_event)
                                 kill[in_call_var_i][-1].append(in_call_event)
 
+                # an exception may occur between two events of one statement
+                in_try = any(isinstance(a, nodes.Try) for a in loc.node.node_ancestors())
+                killed_here = defaultdict(list)
+
                 for var, event in loc.var_events.all():
                     var_i = var_to_index[var]
                     if event.type in GENERATING_EVENTS:
-                        if len(kill[var_i]) == 0:
+                        if len(kill[var_i]) == 0 or var_i in unsure:
                             gens[var_i].append(event)
-                        else:
-                            for kill_event in kill[var_i][-1]:
-                                if kill_event not in event.definitions:
-                                    event.definitions.append(kill_event)
-                                    kill_event.uses.append(event)
+                        for kill_event in kill[var_i][-1] if len(kill[var_i]) > 0 else []:
+                            if kill_event not in event.definitions:
+                                event.definitions.append(kill_event)
+                                kill_event.uses.append(event)
 
                     if event.type in KILLING_EVENTS:
-                        if len(kill[var_i]) > 0:
-                            for kill_event in kill[var_i][-1]:
-                                if kill_event not in event.redefines:
-                                    event.redefines.append(kill_event)
-                                    kill_event.redefined_by.append(event)
-                        kill[var_i].append([event])
-
-            original_gens_kills.append((gens, kill))
+                        previous = kill[var_i][-1] if len(kill[var_i]) > 0 else []
+                        for kill_event in previous:
+                            if kill_event not in event.redefines:
+                                event.redefines.append(kill_event)
+                                kill_event.redefined_by.append(event)
+
+                        reaching = killed_here[var_i] + [event] if in_try else [event]
+                        killed_here[var_i].append(event)
+                        if is_conditional(event.node):
+                            reaching = previous + [event]
+                            if len(previous) == 0:
+                                unsure.add(var_i)
+                                kill[var_i].append([])
+                        if var_i in unsure:
+                            kill[var_i][0].append(event)
+                        if not is_conditional(event.node):
+                            unsure.discard(var_i)
+                        kill[var_i].append(reaching)
+
+                        for use in used_in_next_iteration(event, loc):
+                            if event not in use.definitions:
+                                use.definitions.append(event)
+                                event.uses.append(use)
+
+            original_gens_kills.append((gens, kill, unsure))
 
         return blocks
 
     def collect_computed_kills(original_gens_kills, computed_kills, blocks, init_occupied_blocks):
         for block_i in range(len(blocks)):
-            _gens, kills = original_gens_kills[init_occupied_blocks + block_i]
+            _gens, kills, _unsure = original_gens_kills[init_occupied_blocks + block_i]
             computed_kills.append(
                 # defaultdict(
                 #     PlaceholderVarVal,
@@ -344,12 +428,16 @@ def collect_reaching_definitions(  # blocks fun gen kills
         while to_process:
             i, block = to_process.popleft()
             parent_kills = all_parent_kills[init_occupied_blocks + i]
-            _gens, original_kill = original_gens_kills[init_occupied_blocks + i]
+            _gens, original_kill, unsure = original_gens_kills[init_occupied_blocks + i]
             computed_kill = computed_kills[init_occupied_blocks + i]
 
             updated = []
             for var_i, val in parent_kills.items():
-                if computed_kill[var_i] != val and len(original_kill[var_i]) == 0:
+                if len(original_kill[var_i]) > 0:
+                    if var_i not in unsure:
+                        continue
+                    val |= 1 << (init_occupied_blocks + i)
+                if computed_kill[var_i] != val:
                     computed_kill[var_i] = val
                     updated.append((var_i, val))
 
@@ -372,7 +460,7 @@ def collect_reaching_definitions(  # blocks fun gen kills
     def connect_events(index_to_block, all_parent_kills, original_gens_kills):
         for block_i in range(len(index_to_block)):
             parent_kills = all_parent_kills[block_i]
-            gens, original_kill = original_gens_kills[block_i]
+            gens, original_kill, _unsure = original_gens_kills[block_i]
 
             for var_i, val in parent_kills.items():
                 if len(gens[var_i]) == 0 and len(original_kill[var_i]) == 0:
@@ -417,7 +505,7 @@ def collect_reaching_definitions(  # blocks fun gen kills
                 block_i < len(index_to_block)
                 and index_to_block[block_i].locs[0].node.scope() == uncalled_fun
             ):
-                original_gens, original_kills = original_gens_kills[block_i]
+                original_gens, original_kills, _unsure = original_gens_kills[block_i]
 
                 for var_i, gen_events in original_gens.items():
                     var_scope = variables[var_i].scope
-- 
2.43.0


From 559c383cf74f4f6bbb0f981a30751aa5780db95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:04 +0000
Subject: [PATCH 56/58] fix: unify variables only if they correspond at all
 places

---
 edulint/linting/analyses/antiunify.py | 74 +++++++++++----------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index c5c141d..08e4f54 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -1,4 +1,5 @@
-from typing import Union, Tuple, List, Any, Iterator, Callable, Optional
+from typing import Union, Tuple, List, Dict, Any, Iterator, Callable, Optional
+from collections import defaultdict
 import copy
 from enum import Enum
 
@@ -378,56 +379,41 @@ def remove_renamed_identical_vars(core, avars: List[AunifyVar]):
     return core, get_avars(core)
 
 
+def get_names(sub: Any) -> Iterator[str]:
+    if isinstance(sub, nodes.NodeNG):
+        for node in sub.nodes_of_class((nodes.Name, nodes.AssignName)):
+            yield node.name
+    elif isinstance(sub, (list, tuple)):
+        for elem in sub:
+            yield from get_names(elem)
+
+
 def get_merge_candidates(
     avars: List[AunifyVar], require_name_consistency: bool
-) -> Optional[List[List[AunifyVar]]]:
-    value_owner = {}  # (index, value) -> canonical tuple
-    groups = {}  # canonical tuple -> list of lists
-    forced_groups = {}
-
+) -> Optional[Dict[Tuple[str, ...], List[AunifyVar]]]:
+    # (index of sub, name) -> tuples of names it is part of; None if it is in other code
+    occurrences = defaultdict(set)
     for avar in avars:
         subs = tuple(avar.subs)
-        if isinstance(subs[0], list):
-            continue
-
-        if not require_name_consistency and all(s == subs[0] for s in subs):
-            forced_groups.setdefault(subs, []).append(avar)
-            continue
-
-        if not isinstance(avar.parent, (nodes.Name, nodes.AssignName)):
-            canonicals = {
-                value_owner[(i, v.name)]
-                for i, v in enumerate(subs)
-                if isinstance(v, (nodes.Name, nodes.AssignName)) and (i, v.name) in value_owner
-            }
-            add_group = False
-        else:
-            canonicals = {value_owner[(i, v)] for i, v in enumerate(subs) if (i, v) in value_owner}
-            add_group = True
-
-        if not canonicals:
-            if add_group:
-                groups.setdefault(subs, []).append(avar)
-            for i, v in enumerate(subs):
-                value_owner[(i, v)] = subs
-
-        elif len(canonicals) == 1:
-            (canon,) = canonicals
-            if add_group and canon == subs and canon in groups:
-                groups[canon].append(avar)
+        for i, sub in enumerate(subs):
+            if isinstance(avar.parent, (nodes.Name, nodes.AssignName)):
+                occurrences[(i, sub)].add(subs)
             else:
-                if require_name_consistency:
-                    return None
-                groups.pop(canon, None)
+                for name in get_names(sub):
+                    occurrences[(i, name)].add(None)
 
-        else:
-            if require_name_consistency:
-                return None
-            for s in canonicals:
-                groups.pop(s, None)
+    groups = {}  # tuple of names -> list of avars
+    for avar in avars:
+        if not isinstance(avar.parent, (nodes.Name, nodes.AssignName)):
+            continue
 
-    for canonical, avars in forced_groups.items():
-        groups.setdefault(canonical, []).extend(avars)
+        subs = tuple(avar.subs)
+        if all(occurrences[(i, sub)] == {subs} for i, sub in enumerate(subs)) or (
+            not require_name_consistency and all(sub == subs[0] for sub in subs)
+        ):
+            groups.setdefault(subs, []).append(avar)
+        elif require_name_consistency:
+            return None
 
     return groups
 
-- 
2.43.0


From 06f2eac2bb982579c6988974ed9808ddea2ed535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:04 +0000
Subject: [PATCH 57/58] fix: allow complex constants in compared code

---
 edulint/linting/analyses/antiunify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index 08e4f54..64735e2 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -500,7 +500,7 @@ def set_parents(parent: nodes.NodeNG, node: Any, recursive):
             set_parents(parent, elem, recursive)
 
     elif node is not None and not isinstance(
-        node, (str, bool, int, float, bytes, type(Ellipsis), Enum)
+        node, (str, bool, int, float, complex, bytes, type(Ellipsis), Enum)
     ):
         assert False, f"unreachable, but {type(node)}"
 
-- 
2.43.0


From c33f08fb0d47d720ae26ea2e31066563633320b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:54 +0000
Subject: [PATCH 58/58] fix: find differences of metaclasses in compared code

---
 edulint/linting/analyses/antiunify.py | 2 +-
 edulint/linting/analyses/utils.py     | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index 64735e2..82229ea 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -67,7 +67,7 @@ ASTROID_EXTRA_FIELDS = {
     nodes.AugAssign: ("op",),
     nodes.FunctionDef: ("name",),
     nodes.AsyncFunctionDef: ("name",),
-    nodes.ClassDef: ("name",),
+    nodes.ClassDef: ("name", "_metaclass"),
     nodes.Arguments: ("vararg", "kwarg"),
     nodes.AnnAssign: ("simple",),
     nodes.Comprehension: ("is_async",),
diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 157aaa0..6afce2c 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -44,6 +44,9 @@ def requires_data_dependency_analysis(default_return=None):
 
 
 def new_node(node_type, **attr_vals):
+    if "_metaclass" in attr_vals:
+        attr_vals["metaclass"] = attr_vals.pop("_metaclass")
+
     attr_vals_before = {
         attr: val for attr, val in attr_vals.items() if attr not in POSTINIT_ARGS[node_type].keys()
     }
-- 
2.43.0

