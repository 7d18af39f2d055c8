From bf6b16d09d6f1d3d944b431b9ca3d9110394fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 01/34] fix: don't drop the last record when the data ends on
 an escape character

---
 src/cparser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 242ba6d..d33aa80 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -464,8 +464,8 @@ static PyObject *Parser_iternext(ParserObj *self)
 		lineobj = PyIter_Next(self->input_iter);
 		if (lineobj == NULL) {
 			/* End of input OR exception */
-			if (!PyErr_Occurred() && (self->field_len != 0 ||
-						self->state == IN_QUOTED_FIELD)) {
+			if (!PyErr_Occurred() &&
+					self->state != START_RECORD) {
 				if (self->strict) {
 					PyErr_SetString(_cparserstate_global->error_obj,
 							"unexpected end of data");
-- 
2.43.0


From 514eead37aac4e679069e031f00d6b5a3183ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 02/34] fix: don't modify the caller's dialect in the reader
 when format parameters are given

---
 clevercsv/read.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 90ce386..8c9eaaa 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -49,7 +49,14 @@ class reader:
         elif isinstance(dialect, csv.Dialect):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
-            sd = dialect
+            # Work on a copy, the format parameters below must not modify the
+            # dialect object of the caller.
+            sd = SimpleDialect(
+                dialect.delimiter,
+                dialect.quotechar,
+                dialect.escapechar,
+                strict=dialect.strict,
+            )
         else:
             raise ValueError("Unknown dialect type: %r" % dialect)
         for key, value in fmtparams.items():
-- 
2.43.0


From 07004aa0de05adf1b5eff0c2295553203821fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 03/34] fix: accept every form of csv dialect in the reader and
 the writer, and keep strict in conversion

---
 clevercsv/dialect.py | 5 ++++-
 clevercsv/read.py    | 6 +++++-
 clevercsv/write.py   | 4 ++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 9d909d9..d88657a 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -100,7 +100,9 @@ class SimpleDialect:
         delimiter = "" if d.delimiter is None else d.delimiter
         quotechar = "" if d.quoting == csv.QUOTE_NONE else d.quotechar
         escapechar = "" if d.escapechar is None else d.escapechar
-        return cls(delimiter, quotechar, escapechar, strict=d.strict)
+        # csv.Dialect has no default for the strict attribute
+        strict = bool(getattr(d, "strict", False))
+        return cls(delimiter, quotechar, escapechar, strict=strict)
 
     def to_csv_dialect(self) -> csv.Dialect:
         class dialect(csv.Dialect):
@@ -116,6 +118,7 @@ class SimpleDialect:
             # TODO: We need to set this because it can't be None anymore in
             # recent versions of Python
             lineterminator = "\n"
+            strict = self.strict
 
         return dialect()
 
diff --git a/clevercsv/read.py b/clevercsv/read.py
index 8c9eaaa..fba1193 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -16,6 +16,8 @@ from typing import Iterator
 from typing import List
 from typing import Optional
 
+import _csv
+
 from . import field_size_limit
 from ._types import _DialectLike
 from .cparser import Error as ParserError
@@ -46,7 +48,9 @@ class reader:
     ) -> SimpleDialect:
         if isinstance(dialect, str):
             sd = SimpleDialect.from_csv_dialect(csv.get_dialect(dialect))
-        elif isinstance(dialect, csv.Dialect):
+        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)) or (
+            isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
+        ):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
             # Work on a copy, the format parameters below must not modify the
diff --git a/clevercsv/write.py b/clevercsv/write.py
index 91c72ec..94cf327 100644
--- a/clevercsv/write.py
+++ b/clevercsv/write.py
@@ -57,11 +57,11 @@ class writer:
         d: _DialectLike = ""
         if isinstance(dialect, str):
             d = _csv.get_dialect(dialect)
-        elif isinstance(dialect, _csv.Dialect):
+        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)):
             d = dialect
         elif isinstance(dialect, SimpleDialect):
             d = dialect.to_csv_dialect()
-        elif dialect in [csv.excel, csv.excel_tab, csv.unix_dialect]:
+        elif isinstance(dialect, type) and issubclass(dialect, csv.Dialect):
             d = dialect
         else:
             raise ValueError(f"Unknown dialect type: {dialect}")
-- 
2.43.0


From 60e4eebfe37e5d95ae54a0e31f747d2e22ac2798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 04/34] fix: don't change the global field size limit during
 dialect detection

---
 clevercsv/break_ties.py   | 27 ++++++++++++++++-----------
 clevercsv/consistency.py  | 15 ++++++---------
 clevercsv/cparser_util.py | 13 ++++++++++++-
 3 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 490adfd..d42a2e0 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -15,6 +15,11 @@ from .dialect import SimpleDialect
 from .utils import pairwise
 
 
+def _parse(data: str, dialect: SimpleDialect) -> List[List[str]]:
+    # No field exceeds this limit, so the global limit doesn't apply
+    return list(parse_string(data, dialect, field_limit=len(data) + 1))
+
+
 def tie_breaker(
     data: str, dialects: List[SimpleDialect]
 ) -> Optional[SimpleDialect]:
@@ -74,8 +79,8 @@ def reduce_pairwise(
     # First, identify dialects that result in the same parsing result.
     equal_dialects = []
     for a, b in pairwise(dialects):
-        X = list(parse_string(data, a))
-        Y = list(parse_string(data, b))
+        X = _parse(data, a)
+        Y = _parse(data, b)
         if X == Y:
             equal_dialects.append((a, b))
 
@@ -151,8 +156,8 @@ def break_ties_two(
             d_no = A if A.quotechar == "" else B
             d_yes = B if d_no == A else A
 
-            X = list(parse_string(data, dialect=d_no))
-            Y = list(parse_string(data, dialect=d_yes))
+            X = _parse(data, d_no)
+            Y = _parse(data, d_yes)
 
             if X == Y:
                 # quotechar has no effect
@@ -176,8 +181,8 @@ def break_ties_two(
     elif _dialects_only_differ_in_field(A, B, "escapechar"):
         Dnone, Descape = (A, B) if A.escapechar == "" else (B, A)
 
-        X = list(parse_string(data, Dnone))
-        Y = list(parse_string(data, Descape))
+        X = _parse(data, Dnone)
+        Y = _parse(data, Descape)
 
         # double check shape. Usually if the shape differs the pattern score
         # should have caught it, but if by a freakish occurance it hasn't then
@@ -225,8 +230,8 @@ def break_ties_two(
             d_no = A if (Aq, Ae) == ("", "") else B
             d_yes = B if d_no == A else A
 
-            X = list(parse_string(data, dialect=d_no))
-            Y = list(parse_string(data, dialect=d_yes))
+            X = _parse(data, d_no)
+            Y = _parse(data, d_yes)
 
             if len(X) != len(Y):
                 return None
@@ -303,9 +308,9 @@ def break_ties_three(
         # difference is *only* in quotechar
         dialects = [A, B, C]
 
-        pA = list(parse_string(data, A))
-        pB = list(parse_string(data, B))
-        pC = list(parse_string(data, C))
+        pA = _parse(data, A)
+        pB = _parse(data, B)
+        pC = _parse(data, C)
 
         if len(pA) != len(pB) or len(pA) != len(pC) or len(pB) != len(pC):
             return None
diff --git a/clevercsv/consistency.py b/clevercsv/consistency.py
index a7454f3..5ba93c7 100644
--- a/clevercsv/consistency.py
+++ b/clevercsv/consistency.py
@@ -15,7 +15,6 @@ from typing import Iterable
 from typing import List
 from typing import Optional
 
-from . import field_size_limit
 from .break_ties import tie_breaker
 from .cparser_util import parse_string
 from .detect_pattern import pattern_score
@@ -113,11 +112,6 @@ class ConsistencyDetector:
         # TODO: probably some optimization there too
         dialects = get_dialects(data, delimiters=delimiters)
 
-        # TODO: This is not thread-safe and this object can simply own a Parser
-        # for each dialect and set the limit directly there (we can also cache
-        # the best parsing result)
-        old_limit = field_size_limit(len(data) + 1)
-
         scores = self.compute_consistency_scores(data, dialects)
         best_dialects = ConsistencyDetector.get_best_dialects(scores)
         result: Optional[SimpleDialect] = None
@@ -125,8 +119,6 @@ class ConsistencyDetector:
             result = best_dialects[0]
         else:
             result = tie_breaker(data, best_dialects)
-
-        field_size_limit(old_limit)
         return result
 
     def compute_consistency_scores(
@@ -196,7 +188,12 @@ class ConsistencyDetector:
     ) -> float:
         """Compute the type score"""
         total = known = 0
-        for row in parse_string(data, dialect, return_quoted=True):
+        # No field can exceed the length of the data, hence this limit never
+        # applies. It is set explicitly because the global limit doesn't matter
+        # for detection, and has to be left alone.
+        for row in parse_string(
+            data, dialect, return_quoted=True, field_limit=len(data) + 1
+        ):
             assert all(isinstance(cell, tuple) for cell in row)
             for cell, is_quoted in row:
                 total += 1
diff --git a/clevercsv/cparser_util.py b/clevercsv/cparser_util.py
index 484c257..2725f07 100644
--- a/clevercsv/cparser_util.py
+++ b/clevercsv/cparser_util.py
@@ -53,13 +53,16 @@ def _parse_data(
     escapechar: str,
     strict: bool,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     parser = Parser(
         data,
         delimiter=delimiter,
         quotechar=quotechar,
         escapechar=escapechar,
-        field_limit=field_size_limit(),
+        field_limit=(
+            field_size_limit() if field_limit is None else field_limit
+        ),
         strict=strict,
         return_quoted=return_quoted,
     )
@@ -78,6 +81,7 @@ def parse_data(
     escapechar: Optional[str] = None,
     strict: Optional[bool] = None,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     """Parse the data given a dialect using the C parser
 
@@ -110,6 +114,10 @@ def parse_data(
         For each cell, return a tuple "(field, is_quoted)" where the second
         element indicates whether the cell was a quoted cell or not.
 
+    field_limit : int
+        The maximum size of a field. If None, the global limit is used, see
+        :func:`field_size_limit`.
+
     Yields
     ------
     rows : list
@@ -136,6 +144,7 @@ def parse_data(
         escapechar_,
         strict_,
         return_quoted=return_quoted,
+        field_limit=field_limit,
     )
 
 
@@ -143,10 +152,12 @@ def parse_string(
     data: str,
     dialect: SimpleDialect,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     """Utility for when the CSV file is encoded as a single string"""
     return parse_data(
         iter(io.StringIO(data, newline="")),
         dialect=dialect,
         return_quoted=return_quoted,
+        field_limit=field_limit,
     )
-- 
2.43.0


From 73883dde1f46c66b0cf7314562ade6471575f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 05/34] fix: make tie breaking independent of the string hash
 seed

---
 clevercsv/break_ties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index d42a2e0..9a82ffc 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -99,7 +99,7 @@ def reduce_pairwise(
         if d not in visited:
             new_dialects.add(d)
 
-    return list(new_dialects)
+    return sorted(new_dialects)
 
 
 def _dialects_only_differ_in_field(
-- 
2.43.0


From dab89bde2ffbd5cfe501cb3ae7f1af5054159d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 06/34] fix: don't fail in type detection on JSON cells with
 huge integers or deep nesting

---
 clevercsv/detect_type.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index e0635f3..2db657d 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -201,8 +201,9 @@ class TypeDetector:
         if not (cell.startswith("{") and cell.endswith("}")):
             return False
         try:
-            _ = json.loads(cell)
-        except json.JSONDecodeError:
+            # Integers are not converted, as Python limits their length
+            _ = json.loads(cell, parse_int=str)
+        except (json.JSONDecodeError, RecursionError):
             return False
         return True
 
-- 
2.43.0


From 2376cbff4696be2bbf0658d7af18b4829eb0e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 07/34] fix: let has_header handle samples with CR line endings
 and empty samples

---
 clevercsv/detect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 1574110..cae08dd 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -147,9 +147,11 @@ class Detector:
         if dialect is None:
             raise NoDetectionResult
 
-        rdr = reader(StringIO(sample), dialect)
+        rdr = reader(StringIO(sample, newline=""), dialect)
 
-        header = next(rdr)  # assume first row is header
+        header = next(rdr, None)  # assume first row is header
+        if header is None:
+            return False
 
         columns = len(header)
         columnTypes: Dict[int, Optional[Union[int, type]]] = {}
-- 
2.43.0


From b5161b7068eb8d413269f8eddf0369cb565916d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 08/34] fix: don't silently drop cells when write_table
 transposes a ragged table, nor write a file for an empty iterator

---
 clevercsv/wrappers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 18dc6d7..fd530de 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -445,14 +445,16 @@ def write_table(
     if not table:
         return
 
-    if transpose:
-        list_table = list(map(list, zip(*table)))
-    else:
-        list_table = list(map(list, table))
-
+    list_table = list(map(list, table))
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
 
+    if transpose:
+        list_table = list(map(list, zip(*list_table)))
+
+    if not list_table:
+        return
+
     with open(filename, "w", newline="", encoding=encoding) as fp:
         w = writer(fp, dialect=dialect)
         w.writerows(list_table)
-- 
2.43.0


From 5cd032828d766f68a7d5ab7d4806e9c2b14a118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 09/34] fix: escape the filename and the dialect in generated
 code

---
 clevercsv/console/commands/_utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 20c1861..a23fd0e 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -1,5 +1,8 @@
 # -*- coding: utf-8 -*-
 
+import json
+import os
+
 from typing import Any
 from typing import List
 from typing import Optional
@@ -26,10 +29,11 @@ def generate_code(
     encoding: Optional[str],
     use_pandas: bool = False,
 ) -> List[str]:
-    assert dialect.quotechar is not None
-    d = '"\\t"' if dialect.delimiter == "\t" else f'"{dialect.delimiter}"'
-    q = '"%s"' % (dialect.quotechar.replace('"', '\\"'))
-    e = repr(f"{dialect.escapechar}").replace("'", '"')
+    # JSON strings are valid Python string literals
+    d = json.dumps(dialect.delimiter, ensure_ascii=False)
+    q = json.dumps(dialect.quotechar, ensure_ascii=False)
+    e = json.dumps(dialect.escapechar, ensure_ascii=False)
+    f = json.dumps(os.fspath(filename), ensure_ascii=False)
     base = [
         "",
         f"# Code generated with CleverCSV version {__version__}",
@@ -40,7 +44,7 @@ def generate_code(
         return [
             *base,
             "",
-            f'df = clevercsv.read_dataframe("{filename}", delimiter={d}, '
+            f"df = clevercsv.read_dataframe({f}, delimiter={d}, "
             f"quotechar={q}, escapechar={e})",
             "",
         ]
@@ -49,7 +53,7 @@ def generate_code(
     lines = [
         *base,
         "",
-        f'with open("{filename}", "r", newline="", encoding={enc}) as fp:',
+        f'with open({f}, "r", newline="", encoding={enc}) as fp:',
         "    reader = clevercsv.reader(fp, "
         + f"delimiter={d}, quotechar={q}, escapechar={e})",
         "    rows = list(reader)",
-- 
2.43.0


From c861876684e733e71f6bd880d8873aaf80161bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 10/34] fix: don't drop cells when standardize transposes a
 ragged file

---
 clevercsv/console/commands/standardize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index f25c9e4..dbbe908 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import io
+import itertools
 import os
 import shutil
 import sys
@@ -207,7 +208,8 @@ class StandardizeCommand(Command):
         with open(path, "r", newline="", encoding=encoding) as fp:
             read = reader(fp, dialect=dialect)
             rows = list(read)
-        rows = list(map(list, zip(*rows)))
+        # pad short rows so that no cells are lost
+        rows = list(map(list, itertools.zip_longest(*rows, fillvalue="")))
         write = writer(stream, dialect="excel")
         for row in rows:
             write.writerow(row)
-- 
2.43.0


From edc146e2fd0ede7fec3776539e09601543de7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 11/34] fix: make standardize --in-place atomic, keep the file
 mode and links, and clean up on failure

---
 clevercsv/console/commands/standardize.py | 32 ++++++++++++++++-------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index dbbe908..0054cb4 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -254,18 +254,30 @@ class StandardizeCommand(Command):
         modified.
 
         """
-        tmpfd, tmpfname = tempfile.mkstemp(prefix="clevercsv_", suffix=".csv")
-        tmpid = os.fdopen(tmpfd, "w", newline="", encoding=target_encoding)
-        self._write_to_stream(path, tmpid, dialect, encoding)
-        tmpid.close()
+        # The temporary file is placed in the same directory as the file, such
+        # that replacing the file is atomic. Links are followed.
+        target = os.path.realpath(path)
+        tmpfd, tmpfname = tempfile.mkstemp(
+            prefix="clevercsv_", suffix=".csv", dir=os.path.dirname(target)
+        )
+        try:
+            with os.fdopen(
+                tmpfd, "w", newline="", encoding=target_encoding
+            ) as tmpid:
+                self._write_to_stream(path, tmpid, dialect, encoding)
 
-        previous_sha1 = sha1sum(path)
-        new_sha1 = sha1sum(tmpfname)
-        if previous_sha1 == new_sha1:
-            os.unlink(tmpfname)
-            return 0
+            previous_sha1 = sha1sum(path)
+            new_sha1 = sha1sum(tmpfname)
+            if previous_sha1 == new_sha1:
+                os.unlink(tmpfname)
+                return 0
 
-        shutil.move(tmpfname, path)
+            shutil.copymode(target, tmpfname)
+            os.replace(tmpfname, target)
+        except BaseException:
+            if os.path.exists(tmpfname):
+                os.unlink(tmpfname)
+            raise
         return 2
 
     def _to_stdout(
-- 
2.43.0


From 24c4b9946ddab48924dcb66dd9e8f83d824ad567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 12/34] fix: don't destroy the input when standardize fails or
 writes to its own input

---
 clevercsv/console/commands/standardize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 0054cb4..b006ad7 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -297,6 +297,12 @@ class StandardizeCommand(Command):
         encoding: Optional[str],
         target_encoding: Optional[str],
     ) -> int:
-        with open(output, "w", newline="", encoding=target_encoding) as fp:
-            self._write_to_stream(path, fp, dialect, encoding)
+        # The output is only opened when its contents are complete, as it can be
+        # the same file as the input.
+        buffer = io.BytesIO()
+        stream = io.TextIOWrapper(buffer, encoding=target_encoding, newline="")
+        self._write_to_stream(path, stream, dialect, encoding)
+        stream.flush()
+        with open(output, "wb") as fp:
+            fp.write(buffer.getvalue())
         return 0
-- 
2.43.0


From 02c913744a1d3afab17cd57982515c6fbf392666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 13/34] fix: don't reject every quoted field in strict mode

---
 src/cparser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index d33aa80..9f2374d 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -364,7 +364,9 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 				if (v == self->quotechar) {
 					self->doublequote = 1;
 					self->state = QUOTE_IN_QUOTED_FIELD;
-				} else if (self->strict) {
+				} else if (self->strict && v != self->delimiter
+						&& v != '\r' && v != '\n'
+						&& v != '\0') {
 					PyErr_Format(_cparserstate_global->error_obj,
 							"'%c' expected after '%c'",
 							self->delimiter,
-- 
2.43.0


From d06f646ab5349f0a36c7aedfadc22bd589bf4822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 14/34] fix: don't escape double quotes when writing with a
 dialect without quotechar

---
 clevercsv/dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index d88657a..58d1e1f 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -108,7 +108,7 @@ class SimpleDialect:
         class dialect(csv.Dialect):
             assert self.delimiter is not None
             delimiter = self.delimiter
-            quotechar = '"' if self.quotechar == "" else self.quotechar
+            quotechar = None if self.quotechar == "" else self.quotechar
             escapechar = None if self.escapechar == "" else self.escapechar
             doublequote = True
             quoting = (
-- 
2.43.0


From 9a85bde7773823a2e06935744b1c72f02aba9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 15/34] fix: end the record at the end of the line that follows
 an escaped newline

---
 src/cparser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cparser.c b/src/cparser.c
index 9f2374d..a94ea18 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -353,6 +353,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 			} else {
 				if (parse_add_char(self, u) < 0)
 					return -1;
+				self->state = IN_FIELD;
 			}
 			break;
 		case IN_QUOTED_FIELD:
-- 
2.43.0


From d729bfd3403cc2b4ec0af0d430dc24eb58606d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 16/34] fix: don't repeat records when iterating over a reader
 that was already advanced

---
 clevercsv/read.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index fba1193..d3ef029 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -70,14 +70,17 @@ class reader:
         return sd
 
     def __iter__(self) -> Iterator[List[str]]:
-        self.parser_gen = Parser(
-            self.csvfile,
-            delimiter=self._dialect.delimiter,
-            quotechar=self._dialect.quotechar,
-            escapechar=self._dialect.escapechar,
-            field_limit=field_size_limit(),
-            strict=self._dialect.strict,
-        )
+        # Don't start over when the iteration is already in progress, otherwise
+        # records are repeated when csvfile is a list.
+        if self.parser_gen is None:
+            self.parser_gen = Parser(
+                self.csvfile,
+                delimiter=self._dialect.delimiter,
+                quotechar=self._dialect.quotechar,
+                escapechar=self._dialect.escapechar,
+                field_limit=field_size_limit(),
+                strict=self._dialect.strict,
+            )
         return self
 
     def __next__(self) -> List[str]:
-- 
2.43.0


From 49186d5aad4883263fd1f50eb62d3c5df883227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 17/34] fix: don't ignore extra keys in DictWriter when
 extrasaction is not in lower case

---
 clevercsv/dict_read_write.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clevercsv/dict_read_write.py b/clevercsv/dict_read_write.py
index fd0f665..5bd09e1 100644
--- a/clevercsv/dict_read_write.py
+++ b/clevercsv/dict_read_write.py
@@ -127,11 +127,12 @@ class DictWriter(Generic[_T]):
     ):
         self.fieldnames = fieldnames
         self.restval = restval
-        if extrasaction.lower() not in ("raise", "ignore"):
+        action = extrasaction.lower()
+        if action not in ("raise", "ignore"):
             raise ValueError(
                 "extrasaction (%s) must be 'raise' or 'ignore'" % extrasaction
             )
-        self.extrasaction = extrasaction
+        self.extrasaction = action
         self.writer = writer(f, dialect, *args, **kwds)
 
     def writeheader(self) -> Any:
-- 
2.43.0


From 3af600ee9ebf8b94ff511fc67e60a6b246072f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 18/34] fix: don't leave NUL characters in the abstraction of
 unclosed quotes

---
 src/abstraction.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/abstraction.c b/src/abstraction.c
index 6034f4e..21449af 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -224,7 +224,8 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 			t = PyUnicode_READ(kind, data, i + 1);
 		}
 		if (i + 1 < len && t == 'Q') {
-			i++;
+			// keep the second quote, for when the quotes aren't closed
+			new_S[++i] = (char)t;
 		} else {
 			quote_idx_r[quote_idx] = i;
 			quote_idx++;
-- 
2.43.0


From 3136549ac942b75743f92ac2b23a5bb1d87c840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 19/34] fix: don't consider every quote escaped after the first
 escape character in masked_by_quotechar

---
 clevercsv/potential_dialects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clevercsv/potential_dialects.py b/clevercsv/potential_dialects.py
index f8b74e6..eaf8b25 100644
--- a/clevercsv/potential_dialects.py
+++ b/clevercsv/potential_dialects.py
@@ -282,8 +282,10 @@ def masked_by_quotechar(
     i = 0
     while i < len(data):
         s = data[i]
+        # An escape character only affects the character that follows it
+        escaped, escape_next = escape_next, False
         if s == quotechar:
-            if escape_next:
+            if escaped:
                 i += 1
                 continue
             if not in_quotes:
@@ -296,6 +298,6 @@ def masked_by_quotechar(
         elif s == test_char and not in_quotes:
             return False
         elif s == escapechar:
-            escape_next = True
+            escape_next = not escaped
         i += 1
     return True
-- 
2.43.0


From c476a320c503997ae24fe330dea6050b60a2ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 20/34] fix: don't use the consistency measure when only
 normal-form detection is asked for

---
 clevercsv/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index cae08dd..a94cedc 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -116,7 +116,7 @@ class Detector:
             dialect = detect_dialect_normal(
                 sample, delimiters=delimiters, verbose=verbose
             )
-            if dialect is not None:
+            if dialect is not None or method == DetectionMethod.NORMAL:
                 self.method_ = DetectionMethod.NORMAL
                 return dialect
 
-- 
2.43.0


From 994a32c3a4b109401d0b4172ae9ae2d58c09adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 21/34] fix: a datetime with text after its time zone is not a
 datetime

---
 clevercsv/detect_type.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index 2db657d..42cb28c 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -162,6 +162,8 @@ class TypeDetector:
             # [date]T[time][+-][time]
             if "+" in parts[1]:
                 subparts = parts[1].split("+")
+                if len(subparts) > 2:
+                    return False
                 istime1 = self.is_time(subparts[0])
                 if not istime1:
                     return False
@@ -174,6 +176,8 @@ class TypeDetector:
                     return True
             elif "-" in parts[1]:
                 subparts = parts[1].split("-")
+                if len(subparts) > 2:
+                    return False
                 istime1 = self.is_time(subparts[0])
                 if not istime1:
                     return False
-- 
2.43.0


From 3f676039f8d2425b4ae7eab8bc6d340af8190f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 22/34] fix: normal forms see the empty cell after a trailing
 delimiter in rows with quotes

---
 clevercsv/normal_form.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index aff21fa..167a431 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -225,8 +225,7 @@ def split_row(row: str, dialect: SimpleDialect) -> List[str]:
             current_cell += c
         else:
             current_cell += c
-    if current_cell:
-        cells.append(current_cell)
+    cells.append(current_cell)
     return cells
 
 
-- 
2.43.0


From 2353759ca64c0ce171fc513f4cab7fe3ac95257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 23/34] fix: normal form 3 does not allow quotes inside quotes

---
 clevercsv/normal_form.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index 167a431..2dc4864 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -302,6 +302,9 @@ def is_form_3(rows: List[str], dialect: SimpleDialect) -> bool:
                 if not is_quoted_cell(cell, dialect.quotechar):
                     # then this form isn't right
                     return False
+                # or with quotes inside the quotes
+                if has_nested_quotes(cell, dialect.quotechar):
+                    return False
             # if it's not quoted
             else:
                 # and it's not elementary
-- 
2.43.0


From cdbb7b96decfc58a853729b0f29e55a1e980a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 24/34] fix: all trailing line ends are removed before testing
 normal forms

---
 clevercsv/normal_form.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index 2dc4864..917d307 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -156,11 +156,7 @@ def maybe_has_escapechar(
 
 
 def strip_trailing_crnl(data: str) -> str:
-    while data.endswith("\n"):
-        data = data.rstrip("\n")
-    while data.endswith("\r"):
-        data = data.rstrip("\r")
-    return data
+    return data.rstrip("\r\n")
 
 
 def every_row_has_delim(rows: List[str], dialect: SimpleDialect) -> bool:
-- 
2.43.0


From 1a4f096d776e0deed393962f8a436f1d1b20fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 25/34] fix: reducing ties does not depend on the order of the
 dialects

---
 clevercsv/break_ties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 9a82ffc..31d611f 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -76,7 +76,9 @@ def reduce_pairwise(
     if not equal_delim:
         return None  # TODO: This might be wrong, it can just return the input!
 
-    # First, identify dialects that result in the same parsing result.
+    # First, identify dialects that result in the same parsing result. The
+    # order in which the dialects are supplied makes no difference.
+    dialects = sorted(dialects)
     equal_dialects = []
     for a, b in pairwise(dialects):
         X = _parse(data, a)
-- 
2.43.0


From 3999a50206d2cd5449a3cde2187d44e6da6fd234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 26/34] fix: a tie between two escape characters is not broken
 by the order of the dialects

---
 clevercsv/break_ties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 31d611f..dc2698c 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -181,6 +181,8 @@ def break_ties_two(
             else:
                 return A
     elif _dialects_only_differ_in_field(A, B, "escapechar"):
+        if A.escapechar != "" and B.escapechar != "":
+            return None
         Dnone, Descape = (A, B) if A.escapechar == "" else (B, A)
 
         X = _parse(data, Dnone)
-- 
2.43.0


From 8417217e6782ffb4b4f6446989bb47ce1ae6ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 27/34] fix: detection with a set of delimiters does not depend
 on the string hash seed

---
 clevercsv/detect.py      | 5 ++++-
 clevercsv/normal_form.py | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index a94cedc..895b42a 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -108,7 +108,10 @@ class Detector:
 
         """
         method = DetectionMethod(method) if isinstance(method, str) else method
-        if delimiters is not None:
+        if isinstance(delimiters, (set, frozenset)):
+            # Sets have no order to try the delimiters in
+            delimiters = sorted(delimiters)
+        elif delimiters is not None:
             delimiters = list(delimiters)
         if method == DetectionMethod.NORMAL or method == DetectionMethod.AUTO:
             if verbose:
diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index 917d307..bc90987 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -54,6 +54,9 @@ def detect_dialect_normal(
     """
     if delimiters is None:
         delimiters = DELIMS
+    if isinstance(delimiters, (set, frozenset)):
+        # Sets have no order to try the delimiters in
+        delimiters = sorted(delimiters)
     delimiters = list(delimiters)
     for delim, quotechar in itertools.product(delimiters, QUOTECHARS):
         if maybe_has_escapechar(data, encoding, delim, quotechar):
-- 
2.43.0


From d93931e5ac74cec4732a8778081e75da362a57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 28/34] fix: write_table leaves the file alone when the table
 can't be written

A cell that can't be written in the dialect or encoding made write_table fail
after the file had been truncated.
---
 clevercsv/wrappers.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index fd530de..5a2d3c3 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -8,6 +8,7 @@ Author: Gertjan van den Burg
 """
 from __future__ import annotations
 
+import io
 import os
 import warnings
 
@@ -455,9 +456,15 @@ def write_table(
     if not list_table:
         return
 
-    with open(filename, "w", newline="", encoding=encoding) as fp:
-        w = writer(fp, dialect=dialect)
-        w.writerows(list_table)
+    # Write to memory first, so that the file is left alone when a row can't be
+    # written in the given dialect or encoding.
+    buffer = io.BytesIO()
+    stream = io.TextIOWrapper(buffer, newline="", encoding=encoding)
+    w = writer(stream, dialect=dialect)
+    w.writerows(list_table)
+    stream.flush()
+    with open(filename, "wb") as fp:
+        fp.write(buffer.getvalue())
 
 
 def write_dicts(
-- 
2.43.0


From a5d6f12f340edb26e8c1155a15717e5e5a82b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 29/34] fix: standardize --output with the input file as output
 could lose it when stopped midway

---
 clevercsv/console/commands/standardize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index b006ad7..fb1e154 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -297,8 +297,12 @@ class StandardizeCommand(Command):
         encoding: Optional[str],
         target_encoding: Optional[str],
     ) -> int:
-        # The output is only opened when its contents are complete, as it can be
-        # the same file as the input.
+        # Writing to the input file must not lose its contents either
+        if os.path.exists(output) and os.path.samefile(path, output):
+            self._in_place(path, dialect, encoding, target_encoding)
+            return 0
+
+        # The output is only opened when its contents are complete
         buffer = io.BytesIO()
         stream = io.TextIOWrapper(buffer, encoding=target_encoding, newline="")
         self._write_to_stream(path, stream, dialect, encoding)
-- 
2.43.0


From 62001120f006f8044e07c61ebcfbbe25ce316e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 30/34] fix: view --transpose failed on an empty file

---
 clevercsv/console/commands/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/view.py b/clevercsv/console/commands/view.py
index 60ae57c..9805819 100644
--- a/clevercsv/console/commands/view.py
+++ b/clevercsv/console/commands/view.py
@@ -81,7 +81,7 @@ class ViewCommand(Command):
             return 1
 
         if self.args.transpose:
-            max_row_length = max(map(len, rows))
+            max_row_length = max(map(len, rows), default=0)
             fixed_rows: List[Sequence[Optional[str]]] = []
             for row in rows:
                 if len(row) == max_row_length:
-- 
2.43.0


From 2736baa6bf44d6a42680c8ada071506efebdfdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 31/34] fix: code and explore --pandas ignored the given
 encoding and number of characters

---
 clevercsv/console/commands/_utils.py  | 6 +++++-
 clevercsv/console/commands/code.py    | 6 +++++-
 clevercsv/console/commands/explore.py | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index a23fd0e..5925201 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -28,6 +28,7 @@ def generate_code(
     dialect: SimpleDialect,
     encoding: Optional[str],
     use_pandas: bool = False,
+    num_chars: Optional[int] = None,
 ) -> List[str]:
     # JSON strings are valid Python string literals
     d = json.dumps(dialect.delimiter, ensure_ascii=False)
@@ -41,11 +42,14 @@ def generate_code(
         "import clevercsv",
     ]
     if use_pandas:
+        # The dataframe reader detects the dialect itself
+        options = "" if encoding is None else f', encoding="{encoding}"'
+        options += f", num_chars={num_chars}" if num_chars else ""
         return [
             *base,
             "",
             f"df = clevercsv.read_dataframe({f}, delimiter={d}, "
-            f"quotechar={q}, escapechar={e})",
+            f"quotechar={q}, escapechar={e}{options})",
             "",
         ]
 
diff --git a/clevercsv/console/commands/code.py b/clevercsv/console/commands/code.py
index de88d12..3277af8 100644
--- a/clevercsv/console/commands/code.py
+++ b/clevercsv/console/commands/code.py
@@ -72,7 +72,11 @@ class CodeCommand(Command):
             return 1
 
         code_lines = generate_code(
-            filename, dialect, encoding, use_pandas=self.args.pandas
+            filename,
+            dialect,
+            self.args.encoding if self.args.pandas else encoding,
+            use_pandas=self.args.pandas,
+            num_chars=num_chars,
         )
         print("\n".join(code_lines))
         return 0
diff --git a/clevercsv/console/commands/explore.py b/clevercsv/console/commands/explore.py
index 3634f02..3ab08ee 100644
--- a/clevercsv/console/commands/explore.py
+++ b/clevercsv/console/commands/explore.py
@@ -77,7 +77,11 @@ class ExploreCommand(Command):
             return 1
 
         code_lines = generate_code(
-            filename, dialect, encoding, use_pandas=self.args.pandas
+            filename,
+            dialect,
+            self.args.encoding if self.args.pandas else encoding,
+            use_pandas=self.args.pandas,
+            num_chars=num_chars,
         )
 
         console = code.InteractiveConsole()
-- 
2.43.0


From 2683c467ffc01f29def52bb7e76da31cb6b80f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 32/34] fix: quoted cells differed from equal texts when the
 quote character is not ASCII

---
 src/cparser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index a94ea18..4cced28 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -159,9 +159,8 @@ static int _set_char(const char *name, Py_UCS4 *target, PyObject *src, Py_UCS4 d
  */
 static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
-	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
-	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
+	PyObject *new = PyUnicode_Substring(str, strip_front,
+			PyUnicode_GetLength(str) - strip_back);
 	Py_DECREF(str);
 	return new;
 }
-- 
2.43.0


From 01669699c875bac0f1ec673b065e120839137663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:34 +0000
Subject: [PATCH 33/34] fix: escape undecodable bytes of file names in
 generated code

---
 clevercsv/console/commands/_utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 5925201..357f028 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -23,6 +23,13 @@ def parse_int(val: Any, name: str) -> Optional[int]:
         )
 
 
+def _string_literal(val: Optional[str]) -> str:
+    # JSON strings are valid Python string literals. Undecodable bytes in file
+    # names are lone surrogates, which source code can't have unescaped.
+    literal = json.dumps(val, ensure_ascii=False)
+    return literal.encode("utf-8", "backslashreplace").decode("utf-8")
+
+
 def generate_code(
     filename: str,
     dialect: SimpleDialect,
@@ -30,11 +37,10 @@ def generate_code(
     use_pandas: bool = False,
     num_chars: Optional[int] = None,
 ) -> List[str]:
-    # JSON strings are valid Python string literals
-    d = json.dumps(dialect.delimiter, ensure_ascii=False)
-    q = json.dumps(dialect.quotechar, ensure_ascii=False)
-    e = json.dumps(dialect.escapechar, ensure_ascii=False)
-    f = json.dumps(os.fspath(filename), ensure_ascii=False)
+    d = _string_literal(dialect.delimiter)
+    q = _string_literal(dialect.quotechar)
+    e = _string_literal(dialect.escapechar)
+    f = _string_literal(os.fspath(filename))
     base = [
         "",
         f"# Code generated with CleverCSV version {__version__}",
-- 
2.43.0


From a74771e64f65667671514fcfbc84c250486a8979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:22 +0000
Subject: [PATCH 34/34] fix: refuse field size limits that are too large for
 the parser

---
 clevercsv/cparser_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clevercsv/cparser_util.py b/clevercsv/cparser_util.py
index 2725f07..7c39630 100644
--- a/clevercsv/cparser_util.py
+++ b/clevercsv/cparser_util.py
@@ -42,7 +42,10 @@ def field_size_limit(*args: Any, **kwargs: Any) -> int:
     limit = all_args[0]
     if not isinstance(limit, int):
         raise TypeError("limit must be an integer")
-    _FIELD_SIZE_LIMIT = int(limit)
+    limit = int(limit)
+    # Raises OverflowError for a limit that is too large for the parser
+    Parser([], field_limit=limit)
+    _FIELD_SIZE_LIMIT = limit
     return old_limit
 
 
-- 
2.43.0

