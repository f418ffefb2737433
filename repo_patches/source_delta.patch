From 0fe995775eba1a979170e1643b2c9a6891c2a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 01/18] fix: keep formatting from changing the host program's
 logging

The levels of the logging module and of our logger were changed while
formatting, visible to every other thread and left changed when a call was
interrupted or raised, and the logger's own level was pinned after each call.
Keep what we need in per-thread state that is restored in any case.
---
 markflow/_utils/_utils.py     | 49 ++++++++++++++++++++++++++++++++---
 markflow/reformat_markdown.py | 22 +++++++++-------
 2 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 1a9ebd4..ccfe2af 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -1,16 +1,34 @@
 import contextlib
 import logging
+import threading
 from typing import Iterator
 
 __all__ = [
     "get_indent",
     "truncate_str",
     "redirect_info_logs_to_debug",
+    "log_level",
+    "mute_logs",
+    "logs_muted",
 ]
 
 ELLIPSIS = "..."
 
 
+class _LogState(threading.local):
+    """How the calling thread's formatting call is to log
+
+    This is kept per thread and apart from the logging module, whose levels belong to
+    the program we are part of.
+    """
+
+    redirected = False
+    muted = False
+
+
+_log_state = _LogState()
+
+
 def get_indent(line: str) -> int:
     return len(line) - len(line.lstrip())
 
@@ -28,7 +46,30 @@ def truncate_str(str_: str, length: int) -> str:
 
 @contextlib.contextmanager
 def redirect_info_logs_to_debug() -> Iterator[None]:
-    old_info = logging.INFO
-    logging.INFO = logging.DEBUG
-    yield
-    logging.INFO = old_info
+    old = _log_state.redirected
+    try:
+        _log_state.redirected = True
+        yield
+    finally:
+        _log_state.redirected = old
+
+
+def log_level(level: int) -> int:
+    """The level to log at for a message that usually has the passed in level"""
+    if _log_state.redirected and level == logging.INFO:
+        return logging.DEBUG
+    return level
+
+
+@contextlib.contextmanager
+def mute_logs() -> Iterator[None]:
+    old = _log_state.muted
+    try:
+        _log_state.muted = True
+        yield
+    finally:
+        _log_state.muted = old
+
+
+def logs_muted() -> bool:
+    return _log_state.muted
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 61582d8..1fca54e 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -1,6 +1,7 @@
 import logging
 from typing import Dict, Type
 
+from ._utils import log_level, logs_muted, mute_logs
 from .exceptions import ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -54,14 +55,17 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
             log_text = f"Lines {line_index + 1}-{line_index + content_length}"
         else:
             log_text = f"Line {line_index + 1}"
-        logger.info("%s: %s", log_text, repr(formatter))
+        formatter_text = repr(formatter)
+        if not logs_muted():
+            logger.log(log_level(logging.INFO), "%s: %s", log_text, formatter_text)
         if (
             section_type == MarkdownSectionEnum.SETEXT_HEADING
             and last_section_type == MarkdownSectionEnum.BLOCK_QUOTE
         ):
-            logger.warning(
-                f"Adding a new line before setext heading on line {line_index + 1}"
-            )
+            if not logs_muted():
+                logger.warning(
+                    f"Adding a new line before setext heading on line {line_index + 1}"
+                )
             formatters.append(
                 FORMATTERS[MarkdownSectionEnum.BLANK_LINE](line_index, [""])
             )
@@ -87,12 +91,12 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
         The reformatted Markdown text
     """
     new_text = _reformat_markdown_text(text, width)
-    level = logger.getEffectiveLevel()
     # Mute logging during second pass since it means nothing to the user.
-    if level > logging.DEBUG:
-        logger.setLevel(logging.ERROR)
-    new_new_text = _reformat_markdown_text(new_text, width)
-    logger.setLevel(level)
+    if logger.getEffectiveLevel() > logging.DEBUG:
+        with mute_logs():
+            new_new_text = _reformat_markdown_text(new_text, width)
+    else:
+        new_new_text = _reformat_markdown_text(new_text, width)
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
-- 
2.43.0


From f4164dbb89c107bd7586502d787ab4193d77209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 02/18] fix: read and write documents as UTF-8 whatever the
 locale

Files and the standard streams were decoded and encoded with the locale's
charset, so the same command garbled or rejected documents, or split
characters, depending on LANG.
---
 markflow/__main__.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 39f0c6b..ef60438 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -1,4 +1,5 @@
 import argparse
+import io
 import logging
 import math
 import pathlib
@@ -235,6 +236,24 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
     return args
 
 
+def _read_file(path: pathlib.Path) -> str:
+    return path.read_text(encoding="utf-8")
+
+
+def _write_file(path: pathlib.Path, text: str) -> None:
+    path.write_text(text, encoding="utf-8")
+
+
+def _read_stdin(stdin: TextIO) -> str:
+    return io.TextIOWrapper(io.BytesIO(stdin.buffer.read()), encoding="utf-8").read()
+
+
+def _write_stdout(text: str) -> None:
+    sys.stdout.flush()
+    sys.stdout.buffer.write(text.encode("utf-8"))
+    sys.stdout.flush()
+
+
 def _write_renders(
     input_path: pathlib.Path, output_path: pathlib.Path, width: Number = 88
 ) -> None:
@@ -246,14 +265,14 @@ def _write_renders(
         second_output_name = output_path.name + ".2"
 
     first_output_path = output_path.parent / first_output_name
-    first_contents = _reformat_markdown_text(input_path.read_text(), width)
+    first_contents = _reformat_markdown_text(_read_file(input_path), width)
     logger.debug("Writing first render to %s", first_output_path)
-    first_output_path.write_text(first_contents)
+    _write_file(first_output_path, first_contents)
 
     second_output_path = output_path.parent / second_output_name
     logger.debug("Writing second render to %s", second_output_path)
     second_contents = _reformat_markdown_text(first_contents, width)
-    second_output_path.write_text(second_contents)
+    _write_file(second_output_path, second_contents)
 
 
 def _print_renders(text: str, width: Number = 88) -> None:
@@ -277,7 +296,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
     files_left_unchanged = 0
     files_changed = 0
     for input_path, output_path in zip(args.paths, output_paths):
-        old_contents = input_path.read_text()
+        old_contents = _read_file(input_path)
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
         except RuntimeError as runtime_error:
@@ -295,13 +314,13 @@ def _reformat_files(args: argparse.Namespace) -> int:
         if new_contents != old_contents:
             files_changed += 1
             if not args.check:
-                output_path.write_text(new_contents)
+                _write_file(output_path, new_contents)
                 print_markdown(f"**reformatted {input_path}**")
             else:
                 print_markdown(f"would reformat {input_path}")
         else:
             if output_path != input_path:
-                output_path.write_text(new_contents)
+                _write_file(output_path, new_contents)
             files_left_unchanged += 1
 
     print_markdown("All done!")
@@ -339,7 +358,7 @@ def _reformat_stdin(args: argparse.Namespace, stdin: TextIO) -> int:
             "STDOUT."
         )
 
-    old_contents = stdin.read()
+    old_contents = _read_stdin(stdin)
     try:
         new_contents = reformat_markdown_text(old_contents, args.line_length)
     except RuntimeError as runtime_error:
@@ -357,7 +376,7 @@ def _reformat_stdin(args: argparse.Namespace, stdin: TextIO) -> int:
             print_markdown("STDIN would be unchanged.")
             return 0
     else:
-        print(new_contents, end="")
+        _write_stdout(new_contents)
         return 0
 
 
-- 
2.43.0


From 1a14cf01147f5066aa18778654aab68c3b4e8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 03/18] fix: notice line endings that need normalizing

Documents that differ from their formatted text only by carriage returns were
reported as unchanged, passed --check, and were left as they were, while any
other change normalized the line endings as well.
---
 markflow/__main__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index ef60438..529a607 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -1,5 +1,4 @@
 import argparse
-import io
 import logging
 import math
 import pathlib
@@ -237,15 +236,16 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
 
 
 def _read_file(path: pathlib.Path) -> str:
-    return path.read_text(encoding="utf-8")
+    # Not as text since that hides line endings we need to normalize
+    return path.read_bytes().decode("utf-8")
 
 
 def _write_file(path: pathlib.Path, text: str) -> None:
-    path.write_text(text, encoding="utf-8")
+    path.write_bytes(text.encode("utf-8"))
 
 
 def _read_stdin(stdin: TextIO) -> str:
-    return io.TextIOWrapper(io.BytesIO(stdin.buffer.read()), encoding="utf-8").read()
+    return stdin.buffer.read().decode("utf-8")
 
 
 def _write_stdout(text: str) -> None:
-- 
2.43.0


From 1b13650363c63d468eae38d56084c6f4041c1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 04/18] fix: don't write output files when checking

--check with --output-dir or --output-file wrote the outputs of all documents
that needed no formatting.
---
 markflow/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 529a607..bc26672 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -319,7 +319,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
             else:
                 print_markdown(f"would reformat {input_path}")
         else:
-            if output_path != input_path:
+            if output_path != input_path and not args.check:
                 _write_file(output_path, new_contents)
             files_left_unchanged += 1
 
-- 
2.43.0


From 5f64cc8e1ae6fcbd149d24b332e6edc87b3a5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 05/18] fix: replace documents in a single step

Documents and output files were truncated and rewritten in place, so a crash, a
full disk or an interrupt while writing lost the document, and a concurrent
reader saw (and could publish) an empty or partial one.
---
 markflow/__main__.py | 71 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index bc26672..784875e 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -1,10 +1,15 @@
 import argparse
+import contextlib
+import errno
 import logging
 import math
+import os
 import pathlib
 import re
+import stat
 import sys
-from typing import List, TextIO
+import uuid
+from typing import List, Optional, TextIO
 
 import rich.console
 import rich.logging
@@ -30,6 +35,9 @@ SITE_PACKAGES_VERSION_REGEX_FORMAT_STR = (
     r"{install_name}-(?P<version>[0-9.]+)\.dist-info"
 )
 
+# The number of symbolic links Linux follows before it assumes that they form a loop
+MAX_LINKS = 40
+
 
 def get_version() -> str:
     this_dir = pathlib.Path(__file__).parent
@@ -240,8 +248,67 @@ def _read_file(path: pathlib.Path) -> str:
     return path.read_bytes().decode("utf-8")
 
 
+def _resolve_links(path: pathlib.Path) -> str:
+    # Not with `os.path.realpath` since that ignores errors
+    target = str(path)
+    for _ in range(MAX_LINKS):
+        try:
+            if not stat.S_ISLNK(os.lstat(target).st_mode):
+                return target
+        except FileNotFoundError:
+            return target
+        target = os.path.join(os.path.dirname(target), os.readlink(target))
+    raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), str(path))
+
+
 def _write_file(path: pathlib.Path, text: str) -> None:
-    path.write_bytes(text.encode("utf-8"))
+    """Replace the contents of a file in a single step
+
+    The contents are written to a temporary file that then takes the place of the file,
+    so whatever happens, the file holds its old or its new contents.
+
+    If that would break the file's links or change its owner, or if we cannot create
+    files next to it, the file is overwritten in place.
+
+    Args:
+        path: The file to write
+        text: Its new contents
+    """
+    data = text.encode("utf-8")
+    target = _resolve_links(path)
+    try:
+        old_stat: Optional[os.stat_result] = os.stat(target)
+    except FileNotFoundError:
+        old_stat = None
+    if old_stat is not None and (
+        not stat.S_ISREG(old_stat.st_mode) or old_stat.st_nlink > 1
+    ):
+        path.write_bytes(data)
+        return
+
+    def opener(name: str, flags: int) -> int:
+        return os.open(name, flags, 0o666 if old_stat is None else 0o600)
+
+    temporary = os.path.join(
+        os.path.dirname(target), f".markflow-{uuid.uuid4().hex}.tmp"
+    )
+    try:
+        with open(temporary, "xb", opener=opener) as file:
+            file.write(data)
+            file.flush()
+            os.fsync(file.fileno())
+        if old_stat is not None:
+            new_stat = os.stat(temporary)
+            if (new_stat.st_uid, new_stat.st_gid) != (old_stat.st_uid, old_stat.st_gid):
+                os.chown(temporary, old_stat.st_uid, old_stat.st_gid)
+            os.chmod(temporary, stat.S_IMODE(old_stat.st_mode))
+        os.replace(temporary, target)
+    except BaseException as error:
+        with contextlib.suppress(OSError):
+            os.unlink(temporary)
+        if not isinstance(error, PermissionError):
+            raise
+        path.write_bytes(data)
 
 
 def _read_stdin(stdin: TextIO) -> str:
-- 
2.43.0


From 076cb5f3156f6cae080feb1f497863431f3eddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 06/18] fix: log to standard error

Log messages went to standard output, in between the formatted document when
formatting standard input.
---
 markflow/__main__.py   | 5 ++++-
 stubs/rich/console.pyi | 1 +
 stubs/rich/logging.pyi | 6 +++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 784875e..68ebac9 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -208,7 +208,10 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
     logging.basicConfig(
         format="",
         level=logging_levels[verbosity],
-        handlers=[rich.logging.RichHandler()],
+        # STDOUT is for documents and reports
+        handlers=[
+            rich.logging.RichHandler(console=rich.console.Console(stderr=True))
+        ],
     )
 
     if args.developer_help:
diff --git a/stubs/rich/console.pyi b/stubs/rich/console.pyi
index a6760ea..4634428 100644
--- a/stubs/rich/console.pyi
+++ b/stubs/rich/console.pyi
@@ -15,6 +15,7 @@ class Console:
         ] = ...,
         styles: Optional[Dict[str, Style]] = ...,
         file: Optional[IO[AnyStr]] = ...,
+        stderr: bool = ...,
         width: Optional[int] = ...,
         height: Optional[int] = ...,
         record: bool = ...,
diff --git a/stubs/rich/logging.pyi b/stubs/rich/logging.pyi
index f29030d..d15b77a 100644
--- a/stubs/rich/logging.pyi
+++ b/stubs/rich/logging.pyi
@@ -1,3 +1,7 @@
 from logging import Handler
+from typing import Optional
 
-class RichHandler(Handler): ...
+from rich.console import Console
+
+class RichHandler(Handler):
+    def __init__(self, *, console: Optional[Console] = ...): ...
-- 
2.43.0


From 91405c56bc4b4aca8d91cf787279fd035645c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 07/18] fix: check the text that is delivered for consistency

The trailing whitespace was stripped after the check, so the text handed to
the user could still change, or fail, when it was formatted again.
---
 markflow/reformat_markdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 1fca54e..f079155 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -90,17 +90,17 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
     Returns:
         The reformatted Markdown text
     """
-    new_text = _reformat_markdown_text(text, width)
+    new_text = _reformat_markdown_text(text, width).rstrip() + "\n"
     # Mute logging during second pass since it means nothing to the user.
     if logger.getEffectiveLevel() > logging.DEBUG:
         with mute_logs():
             new_new_text = _reformat_markdown_text(new_text, width)
     else:
         new_new_text = _reformat_markdown_text(new_text, width)
+    new_new_text = new_new_text.rstrip() + "\n"
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
             "report or email jholland@duosecurity.com."
         )
-    new_text = new_text.rstrip() + "\n"
     return new_text
-- 
2.43.0


From bdf35410d77ad373feb1023573b1667e42262c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 08/18] fix: don't run past the end of a document

A document whose last line ended with two spaces, or with the destination of a
link reference definition on a line of its own, raised StopIteration.
---
 markflow/detectors/link_reference_definition.py | 8 ++++++--
 markflow/detectors/paragraph.py                 | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 3bb2ec0..27d8cd6 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -110,9 +110,13 @@ def split_link_reference_definition(
             return link_reference_definition, remaining_lines
         elif len(line.split(maxsplit=1)) == 1:
             # Only the URL is on the second line
-            index, line = next(indexed_line_generator)
+            try:
+                index, line = next(indexed_line_generator)
+                title_text = line
+            except StopIteration:
+                index += 1
+                title_text = ""
             is_complete = True
-            title_text = line
         else:
             # The URL and possible title (or part of it) are on the second line
             title_text = line.split(maxsplit=1)[1]
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 4abf9f9..c04705f 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -106,7 +106,7 @@ def split_paragraph_ignoring_setext(
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
                 if tail[0].endswith("  "):
-                    remaining_lines = next(tail_lines_generator)
+                    remaining_lines = tail[1:]
                     break
             else:
                 remaining_lines = tail
-- 
2.43.0


From 19597175be32dc5bf39d8c9393b1e7f78d692813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 09/18] fix: check that paths can be read before starting

ExistingPath ignored the permissions it was asked to check.
---
 markflow/_argparse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index adfe12c..0adbefa 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -27,6 +27,12 @@ class ExistingPath:
             raise argparse.ArgumentTypeError(
                 f"specified path does not exist: {repr(str(path))}"
             )
+
+        for permission in self._permissions:
+            if not os.access(path, permission.os_constant):
+                raise argparse.ArgumentTypeError(
+                    f"cannot {permission.verbiage} path: {repr(str(path))}"
+                )
         return path
 
 
-- 
2.43.0


From c77bddfcb2dcb002ba55510320cab01dfe6c0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 10/18] fix: find the Markdown files of a directory reliably

glob took characters in the directory's name as a pattern, swallowed errors,
found directories, pipes and dangling links, and returned files in whatever
order the file system lists them. And a directory without Markdown files made
standard input the document.
---
 markflow/__main__.py  |  5 ++++-
 markflow/_argparse.py | 47 ++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 68ebac9..7dd48a6 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -457,7 +457,10 @@ def main(argv: List[str]) -> int:
         args.line_length = math.inf
 
     if not args.paths:
-        if sys.stdin.isatty():
+        if args.passed_paths:
+            print_markdown("**No Markdown files found. Nothing to do.**")
+            return 0
+        elif sys.stdin.isatty():
             print_markdown("**No path provided. Nothing to do.**")
             return 0
         else:
diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index 0adbefa..651f715 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -1,6 +1,5 @@
 import argparse
 import dataclasses
-import glob
 import os
 import pathlib
 from typing import Any, Callable, List, Optional, Sequence, Union, cast
@@ -100,6 +99,44 @@ class File:
         return path
 
 
+def _raise_error(error: OSError) -> None:
+    raise error
+
+
+def _find_markdown_files(directory: pathlib.Path) -> List[pathlib.Path]:
+    """Find the Markdown files in a directory and those below it
+
+    Hidden files and directories are skipped and links are followed.
+
+    Args:
+        directory: The directory to search.
+
+    Returns:
+        The paths of the files. The order does not depend on the file system.
+    """
+    paths = []
+    visited = set()
+    for root, directory_names, file_names in os.walk(
+        str(directory), onerror=_raise_error, followlinks=True
+    ):
+        Directory([READABLE, EXECUTABLE])(root)
+        root_stat = os.stat(root)
+        if (root_stat.st_dev, root_stat.st_ino) in visited:
+            # There is more than one way here, possibly even a link to a parent.
+            directory_names.clear()
+            continue
+        visited.add((root_stat.st_dev, root_stat.st_ino))
+
+        for name in sorted(file_names):
+            path = pathlib.Path(root, name)
+            if name.endswith(".md") and not name.startswith(".") and path.is_file():
+                paths.append(File([READABLE])(str(path)))
+        directory_names[:] = sorted(
+            name for name in directory_names if not name.startswith(".")
+        )
+    return paths
+
+
 class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
     def __init__(
         self,
@@ -128,6 +165,10 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
             if value.is_file():
                 expanded_paths.append(value)
             else:
-                markdown_paths = glob.glob(str(value / "**" / "*.md"), recursive=True)
-                expanded_paths += [pathlib.Path(path) for path in markdown_paths]
+                try:
+                    expanded_paths += _find_markdown_files(value)
+                except (OSError, argparse.ArgumentTypeError) as error:
+                    raise argparse.ArgumentError(self, str(error))
         setattr(namespace, self.dest, expanded_paths)
+        # So that directories without Markdown files can be told from no paths at all
+        setattr(namespace, f"passed_{self.dest}", values)
-- 
2.43.0


From 92a24c09eb0fbbefcc4df85690bb73eb22eec8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 11/18] fix: refuse output files that would overwrite each
 other or other inputs

---
 markflow/__main__.py | 49 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 7dd48a6..4190578 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -9,7 +9,7 @@ import re
 import stat
 import sys
 import uuid
-from typing import List, Optional, TextIO
+from typing import Dict, Hashable, List, Optional, TextIO
 
 import rich.console
 import rich.logging
@@ -71,6 +71,46 @@ def print_markdown(markdown_text: str) -> None:
     console.print(rich.markdown.Markdown(markdown_text))
 
 
+def _identify_file(path: pathlib.Path) -> Hashable:
+    """Return a value that is the same for every path to the same file"""
+    target = _resolve_links(path)
+    try:
+        target_stat = os.stat(target)
+    except FileNotFoundError:
+        directory, name = os.path.split(target)
+        directory_stat = os.stat(directory or ".")
+        return directory_stat.st_dev, directory_stat.st_ino, name
+    return target_stat.st_dev, target_stat.st_ino
+
+
+def _check_output_paths(
+    paths: List[pathlib.Path], output_paths: List[pathlib.Path]
+) -> None:
+    """Ensure that we can write each path's result without losing something else
+
+    Args:
+        paths: The files to reformat
+        output_paths: The files to write the results to, co-indexed with paths
+
+    Raises:
+        argparse.ArgumentTypeError: We can't.
+    """
+    input_ids = {_identify_file(path) for path in paths}
+    written: Dict[Hashable, Hashable] = {}
+    for path, output_path in zip(paths, output_paths):
+        File([WRITABLE])(str(output_path))
+        input_id = _identify_file(path)
+        output_id = _identify_file(output_path)
+        if output_id in input_ids and output_id != input_id:
+            raise argparse.ArgumentTypeError(
+                f"output file is another input file: {repr(str(output_path))}"
+            )
+        if written.setdefault(output_id, input_id) != input_id:
+            raise argparse.ArgumentTypeError(
+                f"output file of multiple input files: {repr(str(output_path))}"
+            )
+
+
 def parse_args(argv: List[str]) -> argparse.Namespace:
     parser = argparse.ArgumentParser(
         description="Make your Markdown sparkle.", add_help=False
@@ -363,6 +403,13 @@ def _reformat_files(args: argparse.Namespace) -> int:
     else:
         output_paths = args.paths
 
+    if output_paths is not args.paths:
+        try:
+            _check_output_paths(args.paths, output_paths)
+        except (OSError, argparse.ArgumentTypeError) as error:
+            print(f"error: {str(error)}")
+            return -1
+
     files_left_unchanged = 0
     files_changed = 0
     for input_path, output_path in zip(args.paths, output_paths):
-- 
2.43.0


From ceb8f5e2638475c7552556f2f14f5e5454aef824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 12/18] fix: name the file that cannot be reformatted

---
 markflow/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 4190578..0aebac5 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -413,8 +413,8 @@ def _reformat_files(args: argparse.Namespace) -> int:
     files_left_unchanged = 0
     files_changed = 0
     for input_path, output_path in zip(args.paths, output_paths):
-        old_contents = _read_file(input_path)
         try:
+            old_contents = _read_file(input_path)
             new_contents = reformat_markdown_text(old_contents, args.line_length)
         except RuntimeError as runtime_error:
             if args.write_renders and isinstance(
@@ -428,6 +428,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
                 new_args.append(arg)
             runtime_error.args = tuple(new_args)
             raise
+        except Exception:
+            logger.critical("Failed to reformat %s", input_path)
+            raise
         if new_contents != old_contents:
             files_changed += 1
             if not args.check:
-- 
2.43.0


From bfe9deb1e01b9e3465634a3f90d8afef8309b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 13/18] fix: report the names of files as they are

Reports took file names as Markdown, and failed for names that the terminal's
encoding cannot represent.
---
 markflow/__main__.py   | 15 ++++++++++++---
 stubs/rich/console.pyi |  2 ++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 0aebac5..0d7b37c 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -7,6 +7,7 @@ import os
 import pathlib
 import re
 import stat
+import string
 import sys
 import uuid
 from typing import Dict, Hashable, List, Optional, TextIO
@@ -35,6 +36,8 @@ SITE_PACKAGES_VERSION_REGEX_FORMAT_STR = (
     r"{install_name}-(?P<version>[0-9.]+)\.dist-info"
 )
 
+PUNCTUATION_REGEX = re.compile("[" + re.escape(string.punctuation) + "]")
+
 # The number of symbolic links Linux follows before it assumes that they form a loop
 MAX_LINKS = 40
 
@@ -68,7 +71,13 @@ def get_version() -> str:
 
 def print_markdown(markdown_text: str) -> None:
     console = rich.console.Console()
-    console.print(rich.markdown.Markdown(markdown_text))
+    # Names of files may contain characters that the terminal doesn't support
+    encoded_text = markdown_text.encode(console.encoding, "backslashreplace")
+    console.print(rich.markdown.Markdown(encoded_text.decode(console.encoding)))
+
+
+def escape_markdown(text: str) -> str:
+    return PUNCTUATION_REGEX.sub(r"\\\g<0>", text)
 
 
 def _identify_file(path: pathlib.Path) -> Hashable:
@@ -435,9 +444,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
             files_changed += 1
             if not args.check:
                 _write_file(output_path, new_contents)
-                print_markdown(f"**reformatted {input_path}**")
+                print_markdown(f"**reformatted {escape_markdown(str(input_path))}**")
             else:
-                print_markdown(f"would reformat {input_path}")
+                print_markdown(f"would reformat {escape_markdown(str(input_path))}")
         else:
             if output_path != input_path and not args.check:
                 _write_file(output_path, new_contents)
diff --git a/stubs/rich/console.pyi b/stubs/rich/console.pyi
index 4634428..047e635 100644
--- a/stubs/rich/console.pyi
+++ b/stubs/rich/console.pyi
@@ -25,6 +25,8 @@ class Console:
         log_time_format: str = ...,
         highlighter: Optional[HighlighterType] = ...,
     ): ...
+    @property
+    def encoding(self) -> str: ...
     def print(
         self,
         *objects: Any,
-- 
2.43.0


From aa3dde6d23bd40555a9929ced196f3dd65499eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 14/18] fix: keep going when nobody reads the diagnostics

---
 markflow/__main__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 0d7b37c..8321d67 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -69,6 +69,12 @@ def get_version() -> str:
     raise RuntimeError("Could not determine the version of MarkFlow")
 
 
+class LogConsole(rich.console.Console):
+    def on_broken_pipe(self) -> None:
+        # By default, this ends the program. Diagnostics no one reads aren't worth that.
+        self.quiet = True
+
+
 def print_markdown(markdown_text: str) -> None:
     console = rich.console.Console()
     # Names of files may contain characters that the terminal doesn't support
@@ -258,9 +264,7 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
         format="",
         level=logging_levels[verbosity],
         # STDOUT is for documents and reports
-        handlers=[
-            rich.logging.RichHandler(console=rich.console.Console(stderr=True))
-        ],
+        handlers=[rich.logging.RichHandler(console=LogConsole(stderr=True))],
     )
 
     if args.developer_help:
-- 
2.43.0


From 5e2db293c1603d36ed015515153918d64e8ce93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 15/18] fix: take linear time for nested block quotes

Whether a block quote ends with a paragraph was found by parsing its content and
then once more by parsing the block quote at its end, so every level of nesting
doubled the time: a line that starts with 20 '>' took minutes.
---
 markflow/detectors/block_quote.py | 113 +++++++++++++++++-------------
 markflow/detectors/paragraph.py   |  11 +--
 markflow/parser.py                |  39 ++++++-----
 3 files changed, 92 insertions(+), 71 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index c624cbc..3942fee 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -2,11 +2,7 @@ import re
 from typing import List, Tuple
 
 from .._utils import redirect_info_logs_to_debug
-from ._lines import (
-    is_explicit_block_quote_line,
-    is_setext_underline,
-    is_thematic_break_line,
-)
+from ._lines import is_explicit_block_quote_line, is_setext_underline
 from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
 from .bullet_list import split_bullet_list
@@ -81,23 +77,73 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     return True
 
 
-def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
+def _remove_quote_markers(lines: List[str]) -> List[str]:
+    return [LEADING_QUOTE_MARKER.sub("", line) for line in lines]
+
+
+def _trailing_paragraph(lines: List[str]) -> List[str]:
+    """Find the paragraph, possibly in block quotes, that the last line belongs to
+
+    Args:
+        lines: The lines to evaluate.
+
+    Returns:
+        The lines of the paragraph without quote markers. It is empty if lines don't end
+        with a paragraph.
+    """
     # Avoid circular imports
-    from ..parser import MarkdownSectionEnum, parse_markdown
+    from ..parser import MarkdownSectionEnum, split_section
+
+    paragraph: List[str] = []
+    remaining_lines = lines
+    while remaining_lines:
+        if is_explicit_block_quote_line(remaining_lines[0]):
+            _, remaining_lines, paragraph = _split_block_quote(remaining_lines)
+        else:
+            section_type, content, remaining_lines = split_section(remaining_lines)
+            is_paragraph = section_type == MarkdownSectionEnum.PARAGRAPH
+            paragraph = content if is_paragraph else []
+    return paragraph
 
-    parsing_lines = []
-    for line in block_quote_lines:
-        parsing_lines.append(LEADING_QUOTE_MARKER.sub("", line))
 
-    with redirect_info_logs_to_debug():
-        ending_section_type, ending_section_content = parse_markdown(parsing_lines)[-1]
+def _split_block_quote(
+    lines: List[str], line_offset: int = 0
+) -> Tuple[List[str], List[str], List[str]]:
+    """Like `split_block_quote`, but also returns the paragraph the block quote ends with
 
-    if ending_section_type == MarkdownSectionEnum.BLOCK_QUOTE:
-        return _block_quote_ends_with_paragraph(ending_section_content)
-    elif ending_section_type == MarkdownSectionEnum.PARAGRAPH:
-        return True
-    else:
-        return False
+    That way, the nested block quotes only need to be split once for every level.
+    """
+    block_quote: List[str] = []
+    remaining_lines = lines
+    paragraph: List[str] = []
+
+    while remaining_lines:
+        if not is_explicit_block_quote_line(remaining_lines[0]):
+            break
+
+        while remaining_lines and is_explicit_block_quote_line(remaining_lines[0]):
+            block_quote += [remaining_lines[0]]
+            remaining_lines = remaining_lines[1:]
+
+        paragraph = _trailing_paragraph(_remove_quote_markers(block_quote))
+        if not paragraph:
+            break
+
+        continuation: List[str] = []
+        while remaining_lines and _is_paragraph_continuation_text(
+            remaining_lines, line_offset
+        ):
+            continuation += [remaining_lines[0]]
+            remaining_lines = remaining_lines[1:]
+            line_offset += 1
+        if continuation:
+            block_quote += continuation
+            if any(is_explicit_block_quote_line(line) for line in continuation):
+                paragraph = _trailing_paragraph(_remove_quote_markers(block_quote))
+            else:
+                paragraph = _trailing_paragraph(paragraph + continuation)
+
+    return block_quote, remaining_lines, paragraph
 
 
 def split_block_quote(
@@ -124,34 +170,5 @@ def split_block_quote(
         found, otherwise it is an empty list. The second value is the remaining text.
         (If lines does not start with a thematic break, it is the same as lines.)
     """
-    block_quote: List[str] = []
-    remaining_lines = lines
-
-    while remaining_lines:
-        if not is_explicit_block_quote_line(remaining_lines[0]):
-            break
-
-        while remaining_lines and is_explicit_block_quote_line(remaining_lines[0]):
-            block_quote += [remaining_lines[0]]
-            remaining_lines = remaining_lines[1:]
-
-        check_for_continuation = _block_quote_ends_with_paragraph(block_quote)
-
-        if check_for_continuation:
-            first_line = True
-            while remaining_lines and _is_paragraph_continuation_text(
-                remaining_lines, line_offset
-            ):
-                if first_line:
-                    first_line = False
-                    if is_setext_underline(
-                        remaining_lines[0]
-                    ) and not is_thematic_break_line(remaining_lines[0]):
-                        break
-                block_quote += [remaining_lines[0]]
-                remaining_lines = remaining_lines[1:]
-                line_offset += 1
-        else:
-            break
-
+    block_quote, remaining_lines, _ = _split_block_quote(lines, line_offset)
     return block_quote, remaining_lines
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index c04705f..5a23dfb 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -1,9 +1,12 @@
 from typing import Generator, List, Tuple
 
-from ._lines import is_paragraph_start_line, is_setext_underline
+from ._lines import (
+    is_explicit_block_quote_line,
+    is_paragraph_start_line,
+    is_setext_underline,
+)
 from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
-from .block_quote import split_block_quote
 from .bullet_list import split_bullet_list
 from .fenced_code_block import split_fenced_code_block
 from .ordered_list import split_ordered_list
@@ -31,7 +34,6 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     for splitter in [
         split_atx_heading,
         split_blank_line,
-        split_block_quote,
         split_bullet_list,
         split_fenced_code_block,
         split_ordered_list,
@@ -41,7 +43,8 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
         # ToDo: Disable logging?
         if splitter(lines, line_offset)[0]:
             return False
-    if is_setext_underline(lines[0]):
+    # This is all it takes. Splitting would look into the block quote, too.
+    if is_explicit_block_quote_line(lines[0]) or is_setext_underline(lines[0]):
         return False
     return True
 
diff --git a/markflow/parser.py b/markflow/parser.py
index f57bb01..748da52 100644
--- a/markflow/parser.py
+++ b/markflow/parser.py
@@ -53,31 +53,32 @@ SPLITTERS: List[Tuple[MarkdownSectionEnum, SplitFunc]] = [
 ]
 
 
+def split_section(
+    lines: List[str], current_line: int = 1
+) -> Tuple[MarkdownSectionEnum, List[str], List[str]]:
+    for section_type, splitter in SPLITTERS:
+        section_content, remaining_lines = splitter(lines)
+        if section_content:
+            return section_type, section_content, remaining_lines
+    raise RuntimeError(f"Could not determine section type on line {current_line}")
+
+
 def parse_markdown(lines: List[str]) -> List[Tuple[MarkdownSectionEnum, List[str]]]:
     sections: List[Tuple[MarkdownSectionEnum, List[str]]] = []
     remaining_lines = lines
     current_line = 1
 
     while remaining_lines:
-        for section_type, splitter in SPLITTERS:
-            section_content, remaining_lines = splitter(remaining_lines)
-            if section_content:
-                content_length = len(section_content)
-                if content_length > 1:
-                    log_text = (
-                        f"Lines {current_line}-{current_line + content_length - 1}"
-                    )
-                else:
-                    log_text = f"Line {current_line}"
-                logger.debug(
-                    "%s: %s", log_text, section_type.value,
-                )
-                sections.append((section_type, section_content))
-                current_line += len(section_content)
-                break
+        section_type, section_content, remaining_lines = split_section(
+            remaining_lines, current_line
+        )
+        content_length = len(section_content)
+        if content_length > 1:
+            log_text = f"Lines {current_line}-{current_line + content_length - 1}"
         else:
-            raise RuntimeError(
-                f"Could not determine section type on line {current_line}",
-            )
+            log_text = f"Line {current_line}"
+        logger.debug("%s: %s", log_text, section_type.value)
+        sections.append((section_type, section_content))
+        current_line += content_length
 
     return sections
-- 
2.43.0


From 1d0c51a47c1d754e5865e49e67f3f2bd10821d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 16/18] fix: report names that the terminal can't represent

Errors about output files were printed to STDOUT, which raises an exception if its
encoding doesn't support the name of a file.
---
 markflow/__main__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 8321d67..4c912ad 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -293,7 +293,11 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
                 File([WRITABLE])(path)
             except argparse.ArgumentTypeError as ate:
                 parser.print_usage()
-                print(f"{parser.prog}: error: argument paths: {str(ate)}")
+                # Unlike STDOUT, STDERR takes any file name
+                print(
+                    f"{parser.prog}: error: argument paths: {str(ate)}",
+                    file=sys.stderr,
+                )
                 sys.exit(-1)
 
     return args
@@ -420,7 +424,8 @@ def _reformat_files(args: argparse.Namespace) -> int:
         try:
             _check_output_paths(args.paths, output_paths)
         except (OSError, argparse.ArgumentTypeError) as error:
-            print(f"error: {str(error)}")
+            # Unlike STDOUT, STDERR takes any file name
+            print(f"error: {str(error)}", file=sys.stderr)
             return -1
 
     files_left_unchanged = 0
-- 
2.43.0


From 5805c2b2032ac503c7f6359a1e62005e1de0f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 17/18] fix: print refusals to STDOUT again

They must not depend on whether someone reads STDERR, so escape what STDOUT doesn't
support instead, as reports do.
---
 markflow/__main__.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 4c912ad..96bca91 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -75,11 +75,19 @@ class LogConsole(rich.console.Console):
         self.quiet = True
 
 
+def _escape_unsupported(text: str, encoding: str) -> str:
+    # Names of files may contain characters that the terminal doesn't support
+    return text.encode(encoding, "backslashreplace").decode(encoding)
+
+
+def print_text(text: str) -> None:
+    print(_escape_unsupported(text, sys.stdout.encoding or "utf-8"))
+
+
 def print_markdown(markdown_text: str) -> None:
     console = rich.console.Console()
-    # Names of files may contain characters that the terminal doesn't support
-    encoded_text = markdown_text.encode(console.encoding, "backslashreplace")
-    console.print(rich.markdown.Markdown(encoded_text.decode(console.encoding)))
+    markdown_text = _escape_unsupported(markdown_text, console.encoding)
+    console.print(rich.markdown.Markdown(markdown_text))
 
 
 def escape_markdown(text: str) -> str:
@@ -293,11 +301,7 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
                 File([WRITABLE])(path)
             except argparse.ArgumentTypeError as ate:
                 parser.print_usage()
-                # Unlike STDOUT, STDERR takes any file name
-                print(
-                    f"{parser.prog}: error: argument paths: {str(ate)}",
-                    file=sys.stderr,
-                )
+                print_text(f"{parser.prog}: error: argument paths: {str(ate)}")
                 sys.exit(-1)
 
     return args
@@ -424,8 +428,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
         try:
             _check_output_paths(args.paths, output_paths)
         except (OSError, argparse.ArgumentTypeError) as error:
-            # Unlike STDOUT, STDERR takes any file name
-            print(f"error: {str(error)}", file=sys.stderr)
+            print_text(f"error: {str(error)}")
             return -1
 
     files_left_unchanged = 0
-- 
2.43.0


From 600c3a942d6db724ade2c52e8a23362f70c65ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 18/18] fix: write renders to STDOUT as UTF-8 whatever the
 locale

---
 markflow/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 96bca91..a0cca94 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -409,11 +409,11 @@ def _write_renders(
 def _print_renders(text: str, width: Number = 88) -> None:
     first_contents = _reformat_markdown_text(text, width)
     logger.debug("Writing first render to STDOUT")
-    print(first_contents)
+    _write_stdout(first_contents + "\n")
 
     second_contents = _reformat_markdown_text(first_contents, width)
     logger.debug("Writing second render to STDOUT")
-    print(second_contents)
+    _write_stdout(second_contents + "\n")
 
 
 def _reformat_files(args: argparse.Namespace) -> int:
-- 
2.43.0

