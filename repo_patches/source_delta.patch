From 57afd9a7e421d8c30ca5dde21850161f2f76f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 01/20] fix: answer requests for unknown reports with 404
 instead of a server error

---
 src/spexsrv/application/app.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 542d847..8e5eaa2 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -107,14 +107,19 @@ async def index() -> str:
     return await render_template("upload-form.html", title="Upload Specification")
 
 
+def cached_report(hash: str, suffix: str) -> Path:
+    """Return path to a file of a published report, abort with 404 if missing."""
+    fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
+    if fpath is None or not fpath.with_suffix(suffix).is_file():
+        abort(404)
+    return fpath.with_suffix(suffix)
+
+
 @app.route("/report/<hash>")
 async def report(hash: str) -> str:
     # TODO: enable this part again this actually looks for the document requested
-    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
-
-    if json_fpath is None or not json_fpath.is_file():
-        abort(404)
+    json_fpath = cached_report(hash, ".json")
+    html_fpath = cached_report(hash, ".html")
 
     with open(json_fpath) as fh:
         report_json = json.load(fh)
@@ -147,13 +152,13 @@ async def report(hash: str) -> str:
 
 @app.route("/json/<hash>")
 async def json_report(hash: str) -> Response:
-    json_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash))
+    json_fpath = cached_report(hash, ".json")
     return await quart.helpers.send_file(json_fpath)
 
 
 @app.route("/html/<hash>")
 async def html_report(hash: str) -> Response:
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
+    html_fpath = cached_report(hash, ".html")
     return await quart.helpers.send_file(html_fpath)
 
 
-- 
2.43.0


From 4b219c3195d301cafb015dd19a63b73c37fc2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 02/20] fix: name cached reports by content hash, not by upload
 file name

Uploads sharing a file name overwrote each other's published report.
---
 src/spexsrv/application/app.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 8e5eaa2..d6cfe19 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -205,11 +205,10 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
                 json_fpath = e.value
                 html_path = Path(json_fpath.with_suffix(".html"))
 
-                cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / json_fpath.name
+                # name by content hash, uploads may share a file name
+                cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / f"{hash}.json"
                 shutil.copy(json_fpath, cache_entry)
-                shutil.copy(
-                    html_path, Path(app.config[SPEX_CACHE_TMPDIR].name) / html_path.name
-                )
+                shutil.copy(html_path, cache_entry.with_suffix(".html"))
                 app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                 yield json_to_sse({"type": "report-completed", "url": report_url})
         finally:
-- 
2.43.0


From f13e2f8dfc759cb7871d5076ae1c1a299051e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 03/20] fix: confine uploads to their scratch directory

The client-supplied file name could be absolute or contain parent references.
---
 src/spexsrv/application/app.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index d6cfe19..80e31d2 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -174,9 +174,14 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
 
     spec = files["document"]
 
+    # never let the client choose the directory, only the name within our own
+    spec_name = Path(spec.filename or "").name
+    if spec_name in ("", ".."):
+        return "invalid document name", 422, {}
+
     temp_dir = tempfile.TemporaryDirectory()
     temp_dir_path = Path(temp_dir.name)
-    destination = temp_dir_path / spec.filename
+    destination = temp_dir_path / spec_name
 
     await spec.save(destination)
     hash = md5sum(destination)
-- 
2.43.0


From 8ee7e03ca2e747d389620697fd1614d49a684143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 04/20] fix: publish reports atomically

Uploading a document again while the disk failed truncated the report which
was already published for it.
---
 src/spexsrv/application/app.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 80e31d2..5f67b41 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -6,7 +6,7 @@
 import hashlib
 import json
 import logging
-import shutil
+import os
 import tempfile
 from contextlib import contextmanager
 from os import environ
@@ -212,8 +212,9 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
 
                 # name by content hash, uploads may share a file name
                 cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / f"{hash}.json"
-                shutil.copy(json_fpath, cache_entry)
-                shutil.copy(html_path, cache_entry.with_suffix(".html"))
+                # atomic, a failure must not damage an already published report
+                os.replace(json_fpath, cache_entry)
+                os.replace(html_path, cache_entry.with_suffix(".html"))
                 app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                 yield json_to_sse({"type": "report-completed", "url": report_url})
         finally:
-- 
2.43.0


From dcb86f1f35b59ec28ca1346d50d9697de88b2a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 05/20] fix: don't drop value table rows on unrelated errors

Only a missing cell identifies a row without value, any other error (e.g. out
of memory) must fail the figure instead of silently losing the row.
---
 src/spex/jsonspec/extractors/valuetable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spex/jsonspec/extractors/valuetable.py b/src/spex/jsonspec/extractors/valuetable.py
index d4c50c6..d5d8cd1 100644
--- a/src/spex/jsonspec/extractors/valuetable.py
+++ b/src/spex/jsonspec/extractors/valuetable.py
@@ -6,7 +6,10 @@ from dataclasses import replace as dataclass_replace
 from typing import TYPE_CHECKING, Any, Generator, Iterator, List, Optional, Union, cast
 
 from spex.jsonspec.defs import ELLIPSIS, RESERVED, ValueField
-from spex.jsonspec.exceptions import LabelExtractionError
+from spex.jsonspec.exceptions import (
+    LabelExtractionError,
+    XPathElementNotFoundException,
+)
 from spex.jsonspec.extractors.figure import FigureExtractor, RowErrPolicy
 from spex.jsonspec.extractors.helpers import (
     ValueTableMapping,
@@ -78,7 +81,7 @@ class ValueTableExtractor(FigureExtractor):
             try:
                 row_val = self.val_elem(row)
                 row_data = self.content_elem(row)
-            except Exception as e:
+            except XPathElementNotFoundException as e:
                 row_txt = XmlUtils.to_text(row).lower()
                 if row_txt.startswith(ELLIPSIS):
                     # revisit ranges here once we have normalized field order
-- 
2.43.0


From 92b893bab63e314ceef7b67b68f173e1934c9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 06/20] fix: fail when the HTML model or style sheet cannot be
 written

Both were written by the renderer's destructor, where errors go unnoticed: the
run continued with a missing or stale HTML model. A run which failed half-way
also wrote out a partial HTML model.
---
 src/spex/htmlspec/htmlrenderer.py | 32 ++++++++++++++++++++++---------
 src/spex/parse.py                 |  3 +++
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 81e6e16..1578f78 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -28,6 +28,8 @@ ProgressStatus: TypeAlias = Tuple[int, int]  # processing figure X of Y figures
 # TODO: nicer way of using `write_file` ?
 class SpexHtmlRenderer:
     def __init__(self, docx_path: Path, out_dir: Optional[Path] = None):
+        self._html_doc: Optional[Section] = None
+        self._css_doc: Optional[Section] = None
         self._fname = docx_path.name[: -len(docx_path.suffix)]
         self._docx_path = docx_path = docx_path.resolve()
         self._document = Document(docx_path)
@@ -40,16 +42,15 @@ class SpexHtmlRenderer:
         self._html_writer = write_file(self._html_path)
         self._html_head = Section()
         self._html_body = Section()
-        self._html_doc: Optional[Section] = self._html_writer.__enter__()
+        self._html_doc = self._html_writer.__enter__()
 
         self._css_path = out_dir / f"{self._fname}.css"
         self._css_writer = write_file(self._css_path)
-        self._css_doc: Optional[Section] = self._css_writer.__enter__()
+        self._css_doc = self._css_writer.__enter__()
         # from props -> name
         self._css_txtfmt_cache = css.CssCache("txtfmt")
 
         self.__css_tcell_cache = css.CssCache("tcell")
-        self._destroyed = False
 
         self.__tbls_seen: Set[_Element] = set()
 
@@ -261,10 +262,23 @@ class SpexHtmlRenderer:
               process."""
         return len(self._document.tables)
 
+    def close(self) -> None:
+        """write out the documents, to be called once generation has finished."""
+        if self._css_doc is not None:
+            self._css_doc = None
+            self._css_writer.__exit__(None, None, None)
+        if self._html_doc is not None:
+            self._html_doc = None
+            self._html_writer.__exit__(None, None, None)
+
+    def discard(self) -> None:
+        """drop whatever was not written out, leaving any older documents as is."""
+        if self._css_doc is not None:
+            self._css_doc = None
+            self._css_writer.__exit__(RuntimeError, None, None)
+        if self._html_doc is not None:
+            self._html_doc = None
+            self._html_writer.__exit__(RuntimeError, None, None)
+
     def __del__(self) -> None:
-        if self._destroyed:
-            return
-        self._css_writer.__exit__(None, None, None)
-        self._css_doc = None
-        self._html_writer.__exit__(None, None, None)
-        self._html_doc = None
+        self.discard()
diff --git a/src/spex/parse.py b/src/spex/parse.py
index a1bddf2..0d9d23b 100644
--- a/src/spex/parse.py
+++ b/src/spex/parse.py
@@ -38,7 +38,10 @@ def parse_spec(
             else:
                 for _ in gen:
                     pass
+            # errors must surface here, not go unnoticed in a destructor
+            sp.close()
         finally:
+            sp.discard()
             del sp
 
     with get_writer(spec, args.output_dir) as w:
-- 
2.43.0


From 1ed9a4eed90baae772f5781d98c45b5ff5071b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 07/20] fix: keep failures to set up a figure's extraction
 within that figure

Reading the header and selecting the extractor happened outside of the
per-figure error boundary: with --skip-figure-on-error a figure overridden by a
document's quirks but lacking the expected columns still failed the whole run.
---
 src/spex/jsonspec/document.py | 51 +++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 4e31b50..fb1abf0 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -3,6 +3,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 import traceback
+from contextlib import ExitStack
 from re import compile as re_compile
 from re import sub
 from typing import TYPE_CHECKING, Dict, Iterator, List, Optional, Tuple, Type, TypeAlias
@@ -264,15 +265,10 @@ class DocumentParser:
             for thdr in Xpath.elems(tbl, "./tr[1]/*")
         ]
 
-    def _on_parse_fig(self, entity: EntityMeta, tbl: "Element") -> Iterator[Entity]:
-        """Parse figure, emitting one or more entities.
-
-        Note:
-            a figure table may contain nested tables which themselves
-            become separate entities. Hence calling this produces an
-            iterator of entities.
-        """
-        self._unwind_parse_error = False
+    def _get_extractor(
+        self, entity: EntityMeta, tbl: "Element"
+    ) -> Optional["FigureExtractor"]:
+        """Return extractor for figure, None if the figure is to be skipped."""
         fig_id = entity["fig_id"]
         tbl_hdrs = self.extract_tbl_headers(fig_id, tbl)
         extractor_cls = self.fig_extractor_overrides.get(fig_id, None)
@@ -288,7 +284,7 @@ class DocumentParser:
                 self.linter.add_issue(
                     LintErr.TBL_SKIPPED, fig_id, ctx={"columns": cast_json(tbl_hdrs)}
                 )
-                return
+                return None
         else:
             # extractor_cls not None, class gotten from override
             mapping = extractor_cls.can_apply(tbl_hdrs)
@@ -298,7 +294,7 @@ class DocumentParser:
                 )
 
         assert mapping is not None  # only needed to appease type-checking
-        e = extractor_cls(
+        return extractor_cls(
             doc_parser=self,
             entity_meta=entity,
             tbl=tbl,
@@ -307,14 +303,34 @@ class DocumentParser:
             linter=self.__linter,
             mapping=mapping,
         )
-        with logger.contextualize(
-            entity=entity,
-            doc={"spec": self.spec, "revision": self.revision},
-            extractor_cls=extractor_cls.__qualname__,
-        ):
-            gen = e()
+
+    def _on_parse_fig(self, entity: EntityMeta, tbl: "Element") -> Iterator[Entity]:
+        """Parse figure, emitting one or more entities.
+
+        Note:
+            a figure table may contain nested tables which themselves
+            become separate entities. Hence calling this produces an
+            iterator of entities.
+        """
+        self._unwind_parse_error = False
+        gen: Optional[Iterator[Entity]] = None
+        with ExitStack() as log_ctx:
+            log_ctx.enter_context(
+                logger.contextualize(
+                    entity=entity,
+                    doc={"spec": self.spec, "revision": self.revision},
+                )
+            )
             while True:
                 try:
+                    if gen is None:
+                        e = self._get_extractor(entity, tbl)
+                        if e is None:
+                            return
+                        log_ctx.enter_context(
+                            logger.contextualize(extractor_cls=type(e).__qualname__)
+                        )
+                        gen = e()
                     yield from gen
                     break
                 except Exception as err:
@@ -341,6 +357,7 @@ class DocumentParser:
                         or self.args.skip_fig_on_error is False
                     ):
                         raise err
+                    break
 
     def parse(self) -> Iterator[EntityMeta]:
         # for each eligible top-level figure
-- 
2.43.0


From e3b24c0373be50579e70d7a2f6dc3bbebc8529bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 08/20] fix: escape title, revision and file name in the HTML
 model

---
 src/spex/htmlspec/htmlrenderer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 1578f78..8101b2b 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -133,16 +133,17 @@ class SpexHtmlRenderer:
         s.emitln("<!DOCTYPE html>")
         s.emitln('<html lang="en">')
         s.emitln("<head>").indent()
-        title = self._document.header.title
+        title = html_escape(self._document.header.title)
         revision = self._document.header.revision
+        fname = html_escape(self._fname)
         s.emit(f'<meta charset="utf-8" data-spec="{title}"')
         if revision is not None:
-            s.emit(f' data-revision="{revision}"')
+            s.emit(f' data-revision="{html_escape(revision)}"')
         s.emitln("/>")
         s.emitln(f'<meta name="spexVersion" content="{__version__}" />')
-        s.emitln(f"<title>{self._fname}</title>")
+        s.emitln(f"<title>{fname}</title>")
         s.add_section(self._html_head)
-        s.emitln(f'<link rel="stylesheet" href="{self._fname}.css"/>')
+        s.emitln(f'<link rel="stylesheet" href="{fname}.css"/>')
         s.dedent().emitln("</head>")
         s.emitln("<body>").indent()
         s.add_section(self._html_body)
-- 
2.43.0


From 8a9b7603f4cfc54555cc6c6b13232889f6038886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 09/20] fix: don't replace a published report by an identical
 one while it may be in use

---
 src/spexsrv/application/app.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 5f67b41..e55ba04 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -115,6 +115,14 @@ def cached_report(hash: str, suffix: str) -> Path:
     return fpath.with_suffix(suffix)
 
 
+def is_published(hash: str) -> bool:
+    """Return whether a report of this content is available, in full."""
+    fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
+    return fpath is not None and all(
+        fpath.with_suffix(suffix).is_file() for suffix in (".json", ".html")
+    )
+
+
 @app.route("/report/<hash>")
 async def report(hash: str) -> str:
     # TODO: enable this part again this actually looks for the document requested
@@ -212,10 +220,12 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
 
                 # name by content hash, uploads may share a file name
                 cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / f"{hash}.json"
-                # atomic, a failure must not damage an already published report
-                os.replace(json_fpath, cache_entry)
-                os.replace(html_path, cache_entry.with_suffix(".html"))
-                app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
+                # keep a published report of the same content, it may be in use
+                if not is_published(hash):
+                    # atomic, a failure must not damage an already published report
+                    os.replace(json_fpath, cache_entry)
+                    os.replace(html_path, cache_entry.with_suffix(".html"))
+                    app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                 yield json_to_sse({"type": "report-completed", "url": report_url})
         finally:
             temp_dir.cleanup()
-- 
2.43.0


From 19be7bbb4514f4ec53b7d994a72b6f3e0fc63f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 10/20] fix: a broken console no longer fails the extraction of
 figures

Printing a traceback to a closed pipe or full device raised out of the
handler of the failed figure, and so failed runs told to skip it.
---
 src/spex/jsonspec/document.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index fb1abf0..a6e48f2 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -3,7 +3,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 import traceback
-from contextlib import ExitStack
+from contextlib import ExitStack, suppress
 from re import compile as re_compile
 from re import sub
 from typing import TYPE_CHECKING, Dict, Iterator, List, Optional, Tuple, Type, TypeAlias
@@ -27,6 +27,12 @@ FigId: TypeAlias = str
 FigRow: TypeAlias = str
 
 
+def print_exc() -> None:
+    """Print the current exception, if there (still) is a console to print it to."""
+    with suppress(OSError):
+        traceback.print_exc()
+
+
 class DocLinter:
     """
     Records linting issues raised from transforming the HTML to a JSON model.
@@ -334,10 +340,10 @@ class DocumentParser:
                     yield from gen
                     break
                 except Exception as err:
-                    traceback.print_exc()
+                    print_exc()
                     if not self._unwind_parse_error:
                         if self.args.verbose:
-                            traceback.print_exc()
+                            print_exc()
                         logger.log(ULog.ERROR, f"failed parsing figure {entity!r}")
                         logger.exception("exception when parsing figure")
                         self._unwind_parse_error = True
-- 
2.43.0


From b32bcc08b92d8dee3db2d9d5efb2964e388e964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 11/20] fix: no debug prints while writing exceptions to the
 log

With a cause to log they went to standard output, and the entry was lost
when that is closed.
---
 src/spex/log/_log_config.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/spex/log/_log_config.py b/src/spex/log/_log_config.py
index 33c91e9..9797b46 100644
--- a/src/spex/log/_log_config.py
+++ b/src/spex/log/_log_config.py
@@ -63,9 +63,6 @@ def jsonify_exc(exc: BaseException | None) -> JSON:
         ],
     }
     if exc is not None and hasattr(exc, "__cause__") and exc.__cause__:
-        print("CAUSE")
-        print(repr(exc.__cause__))
-        print("/CAUSE")
         exc_json["cause"] = jsonify_exc(exc.__cause__)
 
     return exc_json
-- 
2.43.0


From 0aa0ed31ceb0c5fb064aed38023424e6113a49de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 12/20] fix: tables without rows no longer fail the whole run

They were met outside of the per-figure error boundary: with
--skip-figure-on-error the figures following them were lost.
---
 src/spex/jsonspec/document.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index a6e48f2..87abf8e 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -200,7 +200,10 @@ class DocumentParser:
             if inner_tbl is not None and inner_tbl.tag == "table":
                 tbl = inner_tbl
 
-            fig_tr = Xpath.elem_first_req(tbl, "./tr[1]")
+            fig_tr = Xpath.elem_first(tbl, "./tr[1]")
+            if fig_tr is None:
+                # no rows, hence no title: not a figure
+                continue
             # remove entire tr to simplify downstream processing between top-level and
             # nested figures.
             parent = fig_tr.getparent()
-- 
2.43.0


From c5bd68d5171a715bc371fa40fe928ebe1afe5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 13/20] fix: fail a value table's figure on rows lacking their
 content cell

The row error policy was ignored, the rows silently disappeared. Rows with
just one cell, headings and remarks, are still passed over.
---
 src/spex/jsonspec/extractors/valuetable.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spex/jsonspec/extractors/valuetable.py b/src/spex/jsonspec/extractors/valuetable.py
index d5d8cd1..7de9c76 100644
--- a/src/spex/jsonspec/extractors/valuetable.py
+++ b/src/spex/jsonspec/extractors/valuetable.py
@@ -91,8 +91,11 @@ class ValueTableExtractor(FigureExtractor):
                 elif row_txt.startswith("notes:"):
                     break
                 else:
-                    yield from self.row_err_handler(row_it, row, fields, e)
-                    # TODO: have to observe the return value
+                    out = yield from self.row_err_handler(row_it, row, fields, e)
+                    if out == RowErrPolicy.Stop:
+                        break
+                    elif out == RowErrPolicy.Raise:
+                        raise e
                     continue
 
             val_cleaned = self.val_clean(row, row_val)
@@ -189,6 +192,9 @@ class ValueTableExtractor(FigureExtractor):
 
         This hook is useful only for individual table overrides to catch special cases.
         """
+        if len(Xpath.elems(row, "./td")) == 1:
+            # There is only one column in the whole row
+            return RowErrPolicy.Continue
         yield from ()  # To turn method into a generator
         return RowErrPolicy.Raise
 
-- 
2.43.0


From 66b1553c703f82b5384f911de2d2822d66fe7faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 14/20] fix: don't let uploaded documents read other files
 through XML entities

An entity declared as SYSTEM 'file:///...' put the contents of any file the
service can read into the model and report.
---
 src/spex/htmlspec/docx/docxutils.py    |  4 +++-
 src/spex/jsonspec/parse.py             |  4 ++--
 src/spex/xml.py                        | 17 ++++++++++++++++-
 src/spexsrv/application/report_view.py |  4 ++--
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/spex/htmlspec/docx/docxutils.py b/src/spex/htmlspec/docx/docxutils.py
index 32c7b94..158f9fe 100644
--- a/src/spex/htmlspec/docx/docxutils.py
+++ b/src/spex/htmlspec/docx/docxutils.py
@@ -8,6 +8,8 @@ from typing import IO
 
 from lxml import etree
 
+from spex.xml import xml_parser
+
 
 def docx_extract_contents(
     docx_path: Path, file: str = "word/document.xml"
@@ -15,4 +17,4 @@ def docx_extract_contents(
     with zipfile.ZipFile(docx_path, "r") as zfile:
         fh: IO[bytes]
         with zfile.open(file) as fh:
-            return etree.fromstring(fh.read())
+            return etree.fromstring(fh.read(), xml_parser())
diff --git a/src/spex/jsonspec/parse.py b/src/spex/jsonspec/parse.py
index 0a03ced..ca6f28b 100644
--- a/src/spex/jsonspec/parse.py
+++ b/src/spex/jsonspec/parse.py
@@ -10,7 +10,7 @@ from typing import Optional
 from spex.jsonspec.document import DocumentParser
 from spex.jsonspec.parserargs import ParserArgs
 from spex.jsonspec.quirks import QUIRKS_MAP, QuirksMap
-from spex.xml import ElementTree, Xpath, etree
+from spex.xml import ElementTree, Xpath, etree, xml_parser
 
 
 @dataclass(frozen=True)
@@ -50,7 +50,7 @@ def html_to_spec_doc(html_doc: str) -> SpecDocument:
         SpecDocument: A wrapper that returns a parser and holds meta data on the
         specification
     """
-    doc = etree.parse(io.StringIO(html_doc))
+    doc = etree.parse(io.StringIO(html_doc), xml_parser())
 
     doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()
     doc_rev = Xpath.attr_first_req(doc, "./head/meta/@data-revision").lower()
diff --git a/src/spex/xml.py b/src/spex/xml.py
index c1afbcb..d8be5ea 100644
--- a/src/spex/xml.py
+++ b/src/spex/xml.py
@@ -17,6 +17,13 @@ ElementTree = _ElementTree
 XmlElem = Union[_Element, _ElementTree]
 
 
+def xml_parser() -> etree.XMLParser:
+    """Return a parser which reads nothing but the document itself.
+
+    By default, entities may refer to any local file, disclosing its contents."""
+    return etree.XMLParser(resolve_entities=False)
+
+
 class XmlUtils:
     @staticmethod
     def fmt(elem: XmlElem) -> str:
@@ -126,4 +133,12 @@ class Xpath:
         return res[0]
 
 
-__all__ = ["etree", "Element", "ElementTree", "XmlElem", "Xpath", "XmlUtils"]
+__all__ = [
+    "etree",
+    "Element",
+    "ElementTree",
+    "XmlElem",
+    "Xpath",
+    "XmlUtils",
+    "xml_parser",
+]
diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 26b377d..503cce7 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -8,11 +8,11 @@ from typing import Dict, List
 import lxml
 import lxml.etree
 
-from spex.xml import XmlUtils, Xpath, etree
+from spex.xml import XmlUtils, Xpath, etree, xml_parser
 
 
 def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
-    doc = etree.parse(html_doc)
+    doc = etree.parse(html_doc, xml_parser())
     _err_figures: Dict[str, str] = {}
     for figure in figures:
         figure_id = figure.split("_")[0]
-- 
2.43.0


From 1dcf667538e6824161bf0dc4a7b398c6ed9c4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 15/20] fix: look up figures of the report page by their exact
 id

---
 src/spexsrv/application/report_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 503cce7..5f658df 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -17,7 +17,7 @@ def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
     for figure in figures:
         figure_id = figure.split("_")[0]
         try:
-            p = Xpath.elem_first(doc, f"./body/table[@id={figure_id}]")
+            p = Xpath.elem_first(doc, f"./body/table[@id='{figure_id}']")
             if p is not None:
                 _err_figures[figure] = XmlUtils.fmt(p)
         except lxml.etree.XPathEvalError:
-- 
2.43.0


From 941060b2d6701ad55c17bec137157f29de623600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 16/20] fix: don't drop into the debugger on documents defining
 numbering 0

---
 src/spex/htmlspec/docx/numbering.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index 678da38..a1e15f2 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -111,8 +111,6 @@ class NumberingDocument:
         return int(num_id) in self._num_to_abs_num
 
     def get_style(self, num_id: Union[str, int]) -> AbstractNum:
-        if int(num_id) == 0:
-            breakpoint()
         return self._abstract_nums[self._num_to_abs_num[int(num_id)]]
         # return self.__abstract_nums[int(num_id)]
 
-- 
2.43.0


From 06869476909ef6e74117544433f96c17c3ab45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 17/20] fix: refuse tables with cells spanning more columns
 than Word allows

---
 src/spex/htmlspec/docx/tablewrap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/tablewrap.py b/src/spex/htmlspec/docx/tablewrap.py
index e6bc9ca..7e5f4a8 100644
--- a/src/spex/htmlspec/docx/tablewrap.py
+++ b/src/spex/htmlspec/docx/tablewrap.py
@@ -36,6 +36,9 @@ class GridElement:
 
 Matrix = List[List[GridElement]]
 
+# the most columns a table may have in Word
+MAX_COLUMNS = 63
+
 
 class TableWrap:
     def __init__(self, elem: _Element):
@@ -44,7 +47,11 @@ class TableWrap:
     def grid(self) -> Matrix:
         def tc_grid_span(tc: _Element) -> int:
             ret = Xpath.attr_first(tc, "./w:tcPr/w:gridSpan/@w:val")
-            return int(ret) if isinstance(ret, str) else 1
+            span = int(ret) if isinstance(ret, str) else 1
+            if span > MAX_COLUMNS:
+                # would expand a tiny document into an endless conversion
+                raise ValueError(f"cell spans {span} columns, max is {MAX_COLUMNS}")
+            return span
 
         def cell_vertical_merge(tc: _Element) -> VerticalMergeState:
             merge_elem = Xpath.elem_first(tc, "./w:tcPr/w:vMerge")
-- 
2.43.0


From af46eeb56bf4a1950447bd0f71b214e357956715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:29 +0000
Subject: [PATCH 18/20] fix: look up figures of the report page without
 building a query from their ids

---
 src/spexsrv/application/report_view.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 5f658df..5425ddb 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -3,24 +3,22 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 from pathlib import Path
-from typing import Dict, List
+from typing import Dict, List, Optional
 
-import lxml
-import lxml.etree
-
-from spex.xml import XmlUtils, Xpath, etree, xml_parser
+from spex.xml import Element, XmlUtils, Xpath, etree, xml_parser
 
 
 def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
     doc = etree.parse(html_doc, xml_parser())
+    # compare ids, figure ids are arbitrary text and may not be valid in a query
+    tables: Dict[Optional[str], Element] = {}
+    for table in Xpath.elems(doc, "./body/table"):
+        tables.setdefault(table.get("id"), table)
     _err_figures: Dict[str, str] = {}
     for figure in figures:
         figure_id = figure.split("_")[0]
-        try:
-            p = Xpath.elem_first(doc, f"./body/table[@id='{figure_id}']")
-            if p is not None:
-                _err_figures[figure] = XmlUtils.fmt(p)
-        except lxml.etree.XPathEvalError:
-            ...
+        p = tables.get(figure_id)
+        if p is not None:
+            _err_figures[figure] = XmlUtils.fmt(p)
 
     return _err_figures
-- 
2.43.0


From 99991771d0ba2e334cae2c3c39c9c46a131738b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:29 +0000
Subject: [PATCH 19/20] fix: refuse to overwrite an input file with another
 input's output

---
 src/spex/__main__.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/spex/__main__.py b/src/spex/__main__.py
index 88586e1..639d420 100644
--- a/src/spex/__main__.py
+++ b/src/spex/__main__.py
@@ -7,7 +7,7 @@ import sys
 import textwrap
 import traceback
 from pathlib import Path
-from typing import List, NoReturn
+from typing import List, NoReturn, Tuple
 
 from spex.jsonspec.lint import Code
 from spex.jsonspec.parserargs import ParserArgs
@@ -39,6 +39,14 @@ def arg_lintcode(arg: str) -> List[Code]:
     return [Code[c.strip().upper()] for c in arg.split(",")]
 
 
+def output_suffixes(spec: Path) -> Tuple[str, ...]:
+    if spec.suffix == ".docx":
+        return (".html", ".css", ".json")
+    elif spec.suffix == ".html":
+        return (".json",)
+    return ()
+
+
 class CliParser(argparse.ArgumentParser):
     def error(self, message: str) -> NoReturn:
         sys.stderr.write(f"error: {message}\n")
@@ -127,6 +135,19 @@ def main() -> None:
         verbose=args.verbose,
     )
 
+    # the outputs of one input must never replace another one of the inputs
+    inputs = {spec.resolve() for spec in args.input}
+    for spec in args.input:
+        for suffix in output_suffixes(spec):
+            output = args.output / f"{spec.stem}{suffix}"
+            if output.resolve() in inputs:
+                sys.stderr.write(
+                    f"refusing to process '{spec}', "
+                    f"its output would overwrite the input file '{output}'\n"
+                )
+                sys.stderr.flush()
+                sys.exit(1)
+
     try:
         for spec in args.input:
             logger.log(ULog.INFO, f"parsing '{spec}'...")
-- 
2.43.0


From 7c88c10863596311152a1470e46f593b2d444db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:29 +0000
Subject: [PATCH 20/20] fix: refuse inputs which would be written to the same
 outputs

---
 src/spex/__main__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/spex/__main__.py b/src/spex/__main__.py
index 639d420..b3a2906 100644
--- a/src/spex/__main__.py
+++ b/src/spex/__main__.py
@@ -7,7 +7,7 @@ import sys
 import textwrap
 import traceback
 from pathlib import Path
-from typing import List, NoReturn, Tuple
+from typing import Dict, List, NoReturn, Tuple
 
 from spex.jsonspec.lint import Code
 from spex.jsonspec.parserargs import ParserArgs
@@ -135,11 +135,21 @@ def main() -> None:
         verbose=args.verbose,
     )
 
-    # the outputs of one input must never replace another one of the inputs
+    # the outputs of one input must never replace another one of the inputs, nor
+    # the outputs of another one.
     inputs = {spec.resolve() for spec in args.input}
+    sources: Dict[Path, Path] = {}
     for spec in args.input:
         for suffix in output_suffixes(spec):
             output = args.output / f"{spec.stem}{suffix}"
+            source = sources.setdefault(output.resolve(), spec.resolve())
+            if source != spec.resolve():
+                sys.stderr.write(
+                    f"refusing to process '{spec}', "
+                    f"'{source}' is already to be written to '{output}'\n"
+                )
+                sys.stderr.flush()
+                sys.exit(1)
             if output.resolve() in inputs:
                 sys.stderr.write(
                     f"refusing to process '{spec}', "
-- 
2.43.0

