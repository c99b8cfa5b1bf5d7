From 0480bdabac58277c9e5c3f02514000b6ad33be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 01/16] fix: CLI: keep the destination file if the conversion
 fails, allow in-place conversion

The destination was opened (and so truncated) before the source was read:
A read, decode, conversion or encode error destroyed an existing destination
and "html2creole foo foo" emptied the source file.
---
 creole/cmdline.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index 18d9074..46f5426 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -49,10 +49,11 @@ class CreoleCLI:
         )
 
         with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            with codecs.open(destination, "w", encoding=encoding) as outfile:
-                content = infile.read()
-                converted = self.convert_func(content)
-                outfile.write(converted)
+            content = infile.read()
+        # Don't touch the destination (may be the source file itself) before the conversion is done:
+        converted = self.convert_func(content).encode(encoding)
+        with open(destination, "wb") as outfile:
+            outfile.write(converted)
         print(f"done. {destination!r} created.")
 
 
-- 
2.43.0


From 464a8709749d34b23f72dd1b298a654cef7aacef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 02/16] fix: CLI: don't silently drop an incomplete multi-byte
 sequence at the end of the source

The codecs.open() stream reader keeps incomplete trailing bytes in its buffer:
A truncated source file was converted without any error.
---
 creole/cmdline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index 46f5426..aad55b2 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -8,7 +8,6 @@
 
 
 import argparse
-import codecs
 
 from creole import VERSION_STRING, creole2html, html2creole, html2rest, html2textile
 
@@ -48,8 +47,8 @@ class CreoleCLI:
             f" (codec: {encoding})"
         )
 
-        with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            content = infile.read()
+        with open(sourcefile, "rb") as infile:
+            content = infile.read().decode(encoding)
         # Don't touch the destination (may be the source file itself) before the conversion is done:
         converted = self.convert_func(content).encode(encoding)
         with open(destination, "wb") as outfile:
-- 
2.43.0


From 5fb24f291d258a98e262a8d50e74d441b127dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 03/16] fix: html2markdown: don't print debug output and don't
 warn on <pre><code>

---
 creole/emitter/html2markdown_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b9bf8a0..25534ff 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -74,7 +74,7 @@ class MarkdownEmitter(BaseEmitter):
 
         if pre_content.endswith('</code>'):
             # TODO: The parser should parse this!
-            p = HtmlParser(debug=True)
+            p = HtmlParser()
             root_node: DocNode = p.feed(pre_content, preprocess=False)
             code_node: DocNode = root_node.children[0]
             code = self.deentity.replace_all(code_node.children[0].content)
-- 
2.43.0


From 59d3857b1c29f8ea7733959370fcf3dd9c2faab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 04/16] fix: get_long_description(): html2rest() has no
 emitter_kwargs anymore

Every call ended in a TypeError or in returning the unconverted README.
---
 creole/setup_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 2b716ea..15d2053 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -77,7 +77,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
         # convert html to ReSt
         long_description_rest = html2rest(
             long_description_html,
-            emitter_kwargs={'unknown_emit': unknown_emit}
+            unknown_emit=unknown_emit
         )
     except Exception:
         if raise_errors:
-- 
2.43.0


From 4b19b79a2bfd006fa0eb8d05e1fe1533970b1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 05/16] fix: creole2html: don't store the <<toc>> state in the
 given macros

The table of content object was inserted into the macros dict/object of the
caller: The next (or a concurrent) conversion with the same macros gets no
table of content or that one of the other document.
---
 creole/emitter/creol2html_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index f2da5d4..a36e9dc 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -118,13 +118,11 @@ class HtmlEmitter:
                     self.toc = self.macros["toc"]
                 else:
                     self.toc = TableOfContent()
-                    self.macros["toc"] = self.toc
             else:
                 try:
                     self.toc = getattr(self.macros, "toc")
                 except AttributeError:
                     self.toc = TableOfContent()
-                    self.macros.toc = self.toc
 
         if verbose is None:
             self.verbose = 1
@@ -301,7 +299,9 @@ class HtmlEmitter:
         macro_kwargs["text"] = text
 
         exc_info = None
-        if isinstance(self.macros, dict):
+        if macro_name == "toc" and self.toc is not None:
+            macro = self.toc
+        elif isinstance(self.macros, dict):
             try:
                 macro = self.macros[macro_name]
             except KeyError:
-- 
2.43.0


From 30d46bad0770d99f9afc80788d61a6b5d5670a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 06/16] fix: don't swallow KeyboardInterrupt, SystemExit and
 MemoryError while emitting html

An interrupt in the image size handling or in the <<code>> macro was ignored
and the conversion went on, with a wrong result.
---
 creole/emitter/creol2html_emitter.py | 4 ++--
 creole/shared/example_macros.py      | 6 +++---
 creole/shared/utils.py               | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index a36e9dc..342222d 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -140,7 +140,7 @@ class HtmlEmitter:
         """Try to emit whatever text is in the node."""
         try:
             return node.children[0].content or ''
-        except BaseException:
+        except IndexError:
             return node.content or ''
 
     def html_escape(self, text):
@@ -276,7 +276,7 @@ class HtmlEmitter:
                     width = int(w_str.strip())
                     height = int(h_str.strip())
                     return f'<img src="{self.attr_escape(target)}" title="{title}" alt="{title}" width="{width}" height="{height}" />'
-            except BaseException:
+            except ValueError:
                 pass
         return f'<img src="{self.attr_escape(target)}" title="{text}" alt="{text}" />'
 
diff --git a/creole/shared/example_macros.py b/creole/shared/example_macros.py
index 635e920..541c9e9 100644
--- a/creole/shared/example_macros.py
+++ b/creole/shared/example_macros.py
@@ -60,7 +60,7 @@ def code(ext, text):
 
     try:
         highlighted_text = highlight(text, lexer, formatter).decode('utf-8')
-    except BaseException:
+    except Exception:
         highlighted_text = pre(text)
-    finally:
-        return highlighted_text.replace('\n', '<br />\n')
+
+    return highlighted_text.replace('\n', '<br />\n')
diff --git a/creole/shared/utils.py b/creole/shared/utils.py
index 9c8ffc8..e73c5f0 100644
--- a/creole/shared/utils.py
+++ b/creole/shared/utils.py
@@ -90,7 +90,7 @@ def get_pygments_lexer(source_type, code):
     if PYGMENTS:
         try:
             return lexers.get_lexer_by_name(source_type)
-        except BaseException:
+        except Exception:
             return lexers.guess_lexer(code)
     else:
         return None
-- 
2.43.0


From 4bc303bc608f186a2c966bdda8e98234b8110424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 07/16] fix: <<code>> macro: guess the lexer from the text if
 the extension is unknown

---
 creole/shared/example_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/example_macros.py b/creole/shared/example_macros.py
index 541c9e9..6249e91 100644
--- a/creole/shared/example_macros.py
+++ b/creole/shared/example_macros.py
@@ -55,7 +55,7 @@ def code(ext, text):
     except IndexError:
         source_type = ''
 
-    lexer = get_pygments_lexer(source_type, code)
+    lexer = get_pygments_lexer(source_type, text)
     formatter = get_pygments_formatter()
 
     try:
-- 
2.43.0


From 432338133c764b23d9144cd8afee79556298bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 08/16] fix: README update: don't take a truncated, shortened
 or missing README as up-to-date

Only the common leading lines of the old and the new README were compared:
A file that was truncated by an interrupted update (or a README.creole where
only the end was removed) was never repaired: 'nothing changed, ok.'
A missing file, or a file truncated inside a multi-byte sequence raised an error.
Lines with changed trailing whitespace were accepted here, but rejected by
assert_rst_readme() / assert_markdown_readme(). These just cut off the last four
lines and accepted e.g. a truncated file without the note.
---
 creole/setup_utils.py | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 15d2053..1a76cfb 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -144,6 +144,25 @@ def _generate_markdown_readme(*, creole_readme_path):
     return markdown_readme
 
 
+def _remove_note(content):
+    """ remove the note about generation with modification time """
+    body, note, _ = content.rpartition('\n\n------------\n\n``Note: this file is generated from ')
+    if note:
+        return body
+    return content
+
+
+def _is_up_to_date(readme_path, new_content):
+    """
+    Has the existing README file the new generated content?
+    """
+    try:
+        old_content = readme_path.read_text(encoding='utf-8', errors='replace')
+    except FileNotFoundError:
+        return False
+    return _remove_note(old_content) == new_content
+
+
 def update_rst_readme(package_root, filename='README.creole'):
     """
     Generate README.rst from README.creole
@@ -162,14 +181,7 @@ def update_rst_readme(package_root, filename='README.creole'):
     rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)
 
     # Check if content was changed
-    changed = False
-    with rest_readme_path.open('r') as f:
-        for new_line, old_line in zip(rest_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
+    if _is_up_to_date(rest_readme_path, rest_readme):
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return rest_readme_path
@@ -210,14 +222,7 @@ def update_markdown_readme(package_root, filename='README.creole'):
     markdown_readme = _generate_markdown_readme(creole_readme_path=creole_readme_path)
 
     # # Check if content was changed
-    changed = False
-    with markdown_readme_path.open('r') as f:
-        for new_line, old_line in zip(markdown_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
+    if _is_up_to_date(markdown_readme_path, markdown_readme):
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return markdown_readme_path
@@ -249,7 +254,7 @@ def assert_rst_readme(package_root, filename='README.creole'):
     content = rest_readme_path.read_text(encoding='UTF-8')
 
     assert len(content) > 0, f'Empty content in {rest_readme_path}'
-    content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
+    content = _remove_note(content)
 
     if rest_readme != content:
         diff = unified_diff(content, rest_readme, filename=rest_readme_path.name)
@@ -266,7 +271,7 @@ def assert_markdown_readme(package_root, filename='README.creole'):
     content = markdown_readme_path.read_text(encoding='UTF-8')
 
     assert len(content) > 0, f'Empty content in {markdown_readme_path}'
-    content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
+    content = _remove_note(content)
 
     if markdown_readme != content:
         diff = unified_diff(content, markdown_readme, filename=markdown_readme_path.name)
-- 
2.43.0


From 4d41dd4d622371ed740b7707cc72d09c7aa55374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 09/16] fix: README update: read and write the README files
 always in UTF-8

With another locale encoding the generated README was broken and
didn't match in assert_rst_readme() / assert_markdown_readme().
---
 creole/setup_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 1a76cfb..f0ace82 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -105,7 +105,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
 
 
 def _generate_rst_readme(*, creole_readme_path):
-    with creole_readme_path.open('r') as f:
+    with creole_readme_path.open('r', encoding='utf-8') as f:
         creole_readme = f.read().strip()
 
     # convert creole into html
@@ -131,7 +131,7 @@ def _generate_markdown_readme(*, creole_readme_path):
 
     # convert creole into html
     html_readme = creole2html(creole_readme)
-    creole_readme_path.with_suffix('.html').write_text(html_readme)
+    creole_readme_path.with_suffix('.html').write_text(html_readme, encoding='utf-8')
 
     # convert html to Markdown
     markdown_readme = html2markdown(
@@ -186,7 +186,7 @@ def update_rst_readme(package_root, filename='README.creole'):
         print('nothing changed, ok.')
         return rest_readme_path
 
-    with rest_readme_path.open('w') as f:
+    with rest_readme_path.open('w', encoding='utf-8') as f:
         f.write(rest_readme)
 
         # Add a note about generation with modification time from source:
@@ -227,7 +227,7 @@ def update_markdown_readme(package_root, filename='README.creole'):
         print('nothing changed, ok.')
         return markdown_readme_path
 
-    with markdown_readme_path.open('w') as f:
+    with markdown_readme_path.open('w', encoding='utf-8') as f:
         f.write(markdown_readme)
 
         # Add a note about generation with modification time from source:
-- 
2.43.0


From 33168b66b12d44ca9328b1e5995bde4fb7d4844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 10/16] fix: creole2html: verbose traceback enrichment must not
 raise for special TypeErrors

---
 creole/emitter/creol2html_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 342222d..a7b9a9e 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -332,17 +332,17 @@ class HtmlEmitter:
                 import inspect
                 try:
                     filename = inspect.getfile(macro)
-                except TypeError:
+                except (TypeError, OSError):
                     pass
                 else:
                     try:
                         sourceline = inspect.getsourcelines(macro)[0][0].strip()
                     except OSError as err:
-                        evalue = etype(
+                        evalue = TypeError(
                             f"{evalue} (error getting sourceline: {err} from {filename})"
                         )
                     else:
-                        evalue = etype(f"{evalue} (sourceline: {sourceline!r} from {filename})")
+                        evalue = TypeError(f"{evalue} (sourceline: {sourceline!r} from {filename})")
                     exc_info = etype, evalue, etb
 
             return self.error(msg, exc_info)
-- 
2.43.0


From cb044ad60f425193afb45af99910981b013af48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 11/16] fix: README update: complete a truncated note

---
 creole/setup_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index f0ace82..5b78af6 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -154,12 +154,14 @@ def _remove_note(content):
 
 def _is_up_to_date(readme_path, new_content):
     """
-    Has the existing README file the new generated content?
+    Has the existing README file the new generated content and a complete note?
     """
     try:
-        old_content = readme_path.read_text(encoding='utf-8', errors='replace')
+        old_content = readme_path.read_text(encoding='utf-8', errors='surrogateescape')
     except FileNotFoundError:
         return False
+    if not old_content.rstrip().endswith(' with "python-creole"``'):
+        return False
     return _remove_note(old_content) == new_content
 
 
-- 
2.43.0


From 211b3b9ce48ef3d15e47a0f6ccdf2ba957235965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 12/16] fix: README check: don't accept additional text behind
 the note

---
 creole/setup_utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 5b78af6..f53f7b9 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -15,6 +15,7 @@
 import codecs
 import datetime
 import os
+import re
 import sys
 import warnings
 from pathlib import Path
@@ -144,12 +145,14 @@ def _generate_markdown_readme(*, creole_readme_path):
     return markdown_readme
 
 
+NOTE_REGEX = re.compile(
+    r'\n\n------------\n\n``Note: this file is generated from [^\n]* with "python-creole"``\s*\Z'
+)
+
+
 def _remove_note(content):
     """ remove the note about generation with modification time """
-    body, note, _ = content.rpartition('\n\n------------\n\n``Note: this file is generated from ')
-    if note:
-        return body
-    return content
+    return NOTE_REGEX.sub('', content)
 
 
 def _is_up_to_date(readme_path, new_content):
@@ -160,9 +163,7 @@ def _is_up_to_date(readme_path, new_content):
         old_content = readme_path.read_text(encoding='utf-8', errors='surrogateescape')
     except FileNotFoundError:
         return False
-    if not old_content.rstrip().endswith(' with "python-creole"``'):
-        return False
-    return _remove_note(old_content) == new_content
+    return NOTE_REGEX.search(old_content) is not None and _remove_note(old_content) == new_content
 
 
 def update_rst_readme(package_root, filename='README.creole'):
-- 
2.43.0


From 26bfc24cec2bbabfe4a36135791c09f633c59139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 13/16] fix: get_long_description(): don't silently drop an
 incomplete multi-byte sequence at the end of the source

---
 creole/setup_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index f53f7b9..7dcd97f 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -12,7 +12,6 @@
     :license: GNU GPL v3 or above, see LICENSE for more details.
 """
 
-import codecs
 import datetime
 import os
 import re
@@ -68,9 +67,8 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
     long_description_origin = ''
     try:
         # Read creole README
-        f = codecs.open(filepath, 'r', encoding='utf-8')
-        long_description_origin = f.read().strip()
-        f.close()
+        with open(filepath, 'rb') as f:
+            long_description_origin = f.read().decode('utf-8').strip()
 
         # convert creole into html
         long_description_html = creole2html(long_description_origin)
-- 
2.43.0


From 1491275df12bed2a62768cdd1877e2ae4b3e66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:12 +0000
Subject: [PATCH 14/16] fix: report a bad depth of the toc macro in place

<<toc depth=abc>> made the conversion raise a TypeError at the next headline.
---
 creole/emitter/creol2html_emitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index a7b9a9e..1e85b95 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -27,9 +27,10 @@ class TableOfContent:
         if self._created:
             return "&lt;&lt;toc&gt;&gt;"
 
-        self._created = True
         if depth is not None:
-            self.max_depth = depth
+            self.max_depth = int(depth)  # not a number: the macro reports the ValueError in place
+
+        self._created = True
 
         return '<<toc>>'
 
-- 
2.43.0


From 8fabd5daac6307e455f73c06df5bf95161bb154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:13 +0000
Subject: [PATCH 15/16] fix: report a macro error or result in place, even if
 its str() or repr() fails

---
 creole/emitter/creol2html_emitter.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 1e85b95..0bf1b5a 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -15,6 +15,14 @@ from creole.parser.creol2html_parser import CreoleParser
 from creole.shared.utils import string2dict
 
 
+def _printable(value, func=str):
+    """str() or repr() of something that comes from a macro: this may fail, too."""
+    try:
+        return func(value)
+    except Exception:
+        return f'<unprintable {type(value).__name__} object>'
+
+
 class TableOfContent:
     def __init__(self):
         self.max_depth = None
@@ -322,7 +330,7 @@ class HtmlEmitter:
         try:
             result = macro(**macro_kwargs)
         except TypeError as err:
-            msg = f"Macro '{macro_name}' error: {err}"
+            msg = f"Macro '{macro_name}' error: {_printable(err)}"
             exc_info = sys.exc_info()
             if self.verbose > 1:
                 if self.verbose > 2:
@@ -340,23 +348,23 @@ class HtmlEmitter:
                         sourceline = inspect.getsourcelines(macro)[0][0].strip()
                     except OSError as err:
                         evalue = TypeError(
-                            f"{evalue} (error getting sourceline: {err} from {filename})"
+                            f"{_printable(evalue)} (error getting sourceline: {err} from {filename})"
                         )
                     else:
-                        evalue = TypeError(f"{evalue} (sourceline: {sourceline!r} from {filename})")
+                        evalue = TypeError(f"{_printable(evalue)} (sourceline: {sourceline!r} from {filename})")
                     exc_info = etype, evalue, etb
 
             return self.error(msg, exc_info)
         except Exception as err:
             return self.error(
-                f"Macro '{macro_name}' error: {err}",
+                f"Macro '{macro_name}' error: {_printable(err)}",
                 exc_info=sys.exc_info()
             )
 
         if not isinstance(result, str):
             msg = f"Macro '{macro_name}' doesn't return a unicode string!"
             if self.verbose > 1:
-                msg += f" - returns: {result!r}, type {type(result)!r}"
+                msg += f" - returns: {_printable(result, repr)}, type {type(result)!r}"
             return self.error(msg)
 
         if node.kind == "macro_block":
-- 
2.43.0


From 0c767465d1a086ff52c33776ee8409e90879750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:13 +0000
Subject: [PATCH 16/16] fix: report a macro error in place, even if the source
 line of the macro can't be read

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 0bf1b5a..0defe6f 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -346,7 +346,7 @@ class HtmlEmitter:
                 else:
                     try:
                         sourceline = inspect.getsourcelines(macro)[0][0].strip()
-                    except OSError as err:
+                    except Exception as err:  # e.g.: SyntaxError if the file was edited meanwhile
                         evalue = TypeError(
                             f"{_printable(evalue)} (error getting sourceline: {err} from {filename})"
                         )
-- 
2.43.0

