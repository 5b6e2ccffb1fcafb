From 0d0f08c60f17b0c79ef5a815fed837c789792369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:26 +0000
Subject: [PATCH 01/60] fix: keep the quotes inside of quoted attribute values

---
 src/disseminate/attributes/attributes.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 2fdfdbf..a630d55 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -100,6 +100,25 @@ def is_target_specific(attr, sep=settings.attribute_target_sep):
     return attr != strip_attr(attr, sep=sep)
 
 
+def strip_quotes(value):
+    """Strip the pair of quotes that encloses a value.
+
+    Quotes within the value are part of the value.
+
+    Examples
+    --------
+    >>> strip_quotes('"my value"')
+    'my value'
+    >>> strip_quotes('"the \'quoted\'"')
+    "the 'quoted'"
+    >>> strip_quotes('value')
+    'value'
+    """
+    if len(value) > 1 and value[0] == value[-1] and value[0] in '"\'':
+        return value[1:-1]
+    return value
+
+
 re_attrs = regex.compile(r'((?P<key>[\w\.]+)'
                          r'\s*=\s*'
                          r'(?P<value>("[^"]*"'
@@ -175,10 +194,10 @@ class Attributes(dict):
             d = m.groupdict()
             if d.get('key', None) and d.get('value', None):
                 # Put the key-value pair in the attributes dict
-                attrs.append((d['key'], d['value'].strip('"').strip("'")))
+                attrs.append((d['key'], strip_quotes(d['value'])))
 
             elif d.get('position', None):
-                value = d['position'].strip("'").strip('"')
+                value = strip_quotes(d['position'])
 
                 # Strip target-specific suffixes to get the accurate
                 # PostionalValue subclass. (ex: '3.1416.tex' turns into
-- 
2.43.0


From ac082bf1ca2639e54ad6bca033044cfbd73f41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 02/60] fix: target-specific positional attributes need the
 target as suffix

---
 src/disseminate/attributes/attributes.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index a630d55..34fa5aa 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -274,19 +274,17 @@ class Attributes(dict):
             # ex: StringPositionalValue
             items = [(k, v) for k, v in self.items() if ispositional(v, attr)]
 
-            if target:
-                # Filter by target, if specific
-                target_items = [(k, v) for k, v in items if k.endswith(target)]
-            else:
-                # Otherwise remove entries that have target-specific
-                target_items = [(k, v) for k, v in items
-                                if not is_target_specific(k, sep=sep)]
+            # Entries for the target are preferred over general entries (and
+            # these over the entries for other targets)
+            target_items = [(k, v) for k, v in items
+                            if target and k.endswith(sep + target)]
+            general_items = [(k, v) for k, v in items
+                             if not is_target_specific(k, sep=sep)]
 
             # Return the first item found
-            if target_items:
-                return target_items[0]
-            elif items:
-                return items[0]
+            for found_items in (target_items, general_items, items):
+                if found_items:
+                    return found_items[0]
 
         # Give up
         return default
-- 
2.43.0


From aab2ad9ecd921b23976eaad81a2f40c12a261b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 03/60] fix: replace macros over any number of levels

---
 src/disseminate/utils/string.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index f419b53..3977041 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -494,8 +494,10 @@ def replace_macros(s, *dicts):
         Raises a MacroNotFound exception if a macro was included, but it could
         not be found.
     """
-    # Replace the values
-    def _substitute(m):
+    # Replace the values. The active macros are those whose values are being
+    # processed. A macro that uses itself is replaced once within its own value
+    # to avoid endless recursions.
+    def _substitute(m, active):
         # Get the string for the match
         # ex: macro = '@friend.name'
         d = m.groupdict()
@@ -504,6 +506,10 @@ def replace_macros(s, *dicts):
         # Split at periods
         # ex: pieces = ['@friend', 'name']
         pieces = macro.split('.')
+        name = pieces[0]
+
+        if active.count(name) > 1:
+            return m.group()
 
         # See if the first piece corresponds to an entry in kwargs
         obj = None
@@ -527,15 +533,13 @@ def replace_macros(s, *dicts):
             # no match found. Return the match
             return m.group()
         else:
-            # match(es) found, replace with the string
-            return str(obj) + ''.join('.' + piece for piece in pieces)
+            # match(es) found, replace with the string. This string may use
+            # other macros.
+            value = str(obj) + ''.join('.' + piece for piece in pieces)
+            return _replace(value, active + (name,))
 
-    # Return a string with the dicts substituted. Keep substituting until
-    # all dicts are replaced or the string is no longer changing
-    s, num_subs = _re_macro.subn(_substitute, s)
-    last_num_subs = 0
-    while num_subs > 0 and num_subs > last_num_subs:
-        last_num_subs = num_subs
-        s, num_subs = _re_macro.subn(_substitute, s)
+    def _replace(string, active=()):
+        return _re_macro.sub(lambda m: _substitute(m, active), string)
 
-    return s
+    # Return a string with the dicts substituted.
+    return _replace(s)
-- 
2.43.0


From 152ae77be773b88d64a81266da986d341994efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 04/60] fix: update typed context entries with values of other
 types

---
 src/disseminate/context/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 36b425d..7722e9b 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -472,7 +472,7 @@ class BaseContext(dict):
             # For immutable types, like ints, covert strings into their
             # proper format and replace the original's value
             elif isinstance(original_value, bool):
-                change_value_lower = change_value.lower().strip()
+                change_value_lower = str(change_value).lower().strip()
                 if change_value_lower == 'false':
                     self[key] = False
                 elif change_value_lower == 'true':
@@ -481,13 +481,13 @@ class BaseContext(dict):
             elif isinstance(original_value, int):
                 try:
                     self[key] = int(change_value)
-                except ValueError:
+                except (ValueError, TypeError):
                     pass
 
             elif isinstance(original_value, float):
                 try:
                     self[key] = float(change_value)
-                except ValueError:
+                except (ValueError, TypeError):
                     pass
 
             # Otherwise, if the original value's type and change value type
-- 
2.43.0


From 45fe2f315e20bef95bfec3335ccccfffa1d2713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:51 +0000
Subject: [PATCH 05/60] fix: keep the literal contents of tags within
 paragraphs

---
 src/disseminate/tags/receivers/content.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/receivers/content.py b/src/disseminate/tags/receivers/content.py
index c094aa2..e69899d 100644
--- a/src/disseminate/tags/receivers/content.py
+++ b/src/disseminate/tags/receivers/content.py
@@ -67,6 +67,9 @@ def parse_tags(content, context, tag_factory, level=1):
         pass
     elif isinstance(content, list):
         return list(map(parse, content))
+    elif not getattr(content, 'process_content', True):
+        # The contents of these tags are literal
+        return content
     elif hasattr(content, 'content'):
         if isinstance(content.content, list):
             content.content = list(map(parse, content.content))
-- 
2.43.0


From 5052e93f4c6a7fb00c79dc0cef33669578557f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 06/60] fix: html_tag formats an xhtml tag

---
 src/disseminate/formats/xhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index e1582cc..2cde624 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -19,7 +19,7 @@ class XHtmlFormatError(FormattingError):
 
 
 def html_tag(*args, **kwargs):
-    return html_tag(*args, **kwargs, method='html')
+    return xhtml_tag(*args, **kwargs, method='html')
 
 
 def xml_tag(*args, **kwargs):
-- 
2.43.0


From 6a506473345b7c073395d05c560d478582714eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 07/60] fix: list items above the level of the first item start
 a new item

---
 src/disseminate/formats/xhtml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index 2cde624..f9e8334 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -274,8 +274,9 @@ def xhtml_list(*elements, attributes=None, listtype='ol', level=1,
     # encountered, all sub items will receive the same number so that they're
     # grouped together.
     def counter(item):
-        nonlocal _count
-        if item[0] == listlevel:
+        nonlocal _count, listlevel
+        if item[0] <= listlevel:
+            listlevel = item[0]
             _count += 1
         return _count
 
-- 
2.43.0


From 5d5fc8887b1cca308b82b2257bbd561ba03fb1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 08/60] fix: blank lines before a list item are not part of its
 indent

---
 src/disseminate/tags/list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/list.py b/src/disseminate/tags/list.py
index 4838b9c..a6046a5 100644
--- a/src/disseminate/tags/list.py
+++ b/src/disseminate/tags/list.py
@@ -49,7 +49,7 @@ def parse_string_list(s):
             current_pos = match.end()
 
             # Find the level. The number of spaces determines the level
-            list_level = match.group().count(' ')
+            list_level = match.group().split('\n')[-1].count(' ')
             continue
 
         # Retrieve the string up to this point. Remove leading spaces.
@@ -62,7 +62,7 @@ def parse_string_list(s):
         # Set the current position and current match for the next iteration
         current_match = match
         current_pos = match.end()
-        list_level = match.group().count(' ')
+        list_level = match.group().split('\n')[-1].count(' ')
 
     # Add the remaining match to the returned list
     if current_match is not None:
-- 
2.43.0


From 3f77c6b05152b6fb88635e8a72f5a41f65a16c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:18 +0000
Subject: [PATCH 09/60] fix: keep verbatim text with all of the tex delimiters
 verbatim

---
 src/disseminate/formats/tex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/formats/tex.py b/src/disseminate/formats/tex.py
index d56ee94..725acd9 100644
--- a/src/disseminate/formats/tex.py
+++ b/src/disseminate/formats/tex.py
@@ -203,4 +203,8 @@ def tex_verb(formatted_content):
         return "\\verb!" + formatted_content + "!"
     elif '^' not in formatted_content:
         return "\\verb^" + formatted_content + "^"
-    return formatted_content
+
+    # All of the delimiters are used in the text; use more than one verb
+    middle = len(formatted_content) // 2
+    return (tex_verb(formatted_content[:middle]) +
+            tex_verb(formatted_content[middle:]))
-- 
2.43.0


From bafb87c8464f0d738b63686c4db605214ac8426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:36 +0000
Subject: [PATCH 10/60] fix: keep the text of tex headings without a label

---
 src/disseminate/tags/headings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index 389e456..ee1e237 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -87,6 +87,9 @@ class Heading(Tag, LabelMixin):
         if self.label_tag is not None:
             content += self.label_tag.tex_fmt(mathmode=mathmode,
                                               level=level + 1)
+        else:
+            content += content_to_str(self.content, target='.tex',
+                                      mathmode=mathmode, level=level + 1)
 
         # Format the heading tag. ex: \chapter{Chapter 1. My First Chapter}
         content = tex_cmd(cls_name, attributes=attributes,
-- 
2.43.0


From 878adac0856df2f691f12dc1199c3f8fb45a981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:13 +0000
Subject: [PATCH 11/60] fix: positional attributes for other targets are not
 used for a target

---
 src/disseminate/attributes/attributes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 34fa5aa..b69272f 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -274,15 +274,14 @@ class Attributes(dict):
             # ex: StringPositionalValue
             items = [(k, v) for k, v in self.items() if ispositional(v, attr)]
 
-            # Entries for the target are preferred over general entries (and
-            # these over the entries for other targets)
+            # Entries for the target are preferred over general entries
             target_items = [(k, v) for k, v in items
                             if target and k.endswith(sep + target)]
             general_items = [(k, v) for k, v in items
                              if not is_target_specific(k, sep=sep)]
 
             # Return the first item found
-            for found_items in (target_items, general_items, items):
+            for found_items in (target_items, general_items):
                 if found_items:
                     return found_items[0]
 
-- 
2.43.0


From 8e17b8491367faa1798934f3de077f5379a77343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 12/60] fix: verbatim blocks have their class in html

---
 src/disseminate/tags/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/tags/text.py b/src/disseminate/tags/text.py
index f377b05..62ca652 100644
--- a/src/disseminate/tags/text.py
+++ b/src/disseminate/tags/text.py
@@ -309,7 +309,7 @@ class Verb(Tag):
 
         if self.name == "verbatim":
             attrs['class'] = 'block'
-        return super(Verb, self).html_fmt(*args, **kwargs)
+        return super(Verb, self).html_fmt(attributes=attrs, *args, **kwargs)
 
     def tex_fmt(self, *args, **kwargs):
         if self.name == "verbatim":
-- 
2.43.0


From 709bb6bb0031b8b5930a2c527f7ea87c7070faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 13/60] fix: keep the classes of figures in html

---
 src/disseminate/tags/figs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/tags/figs.py b/src/disseminate/tags/figs.py
index edd859a..1f0b465 100644
--- a/src/disseminate/tags/figs.py
+++ b/src/disseminate/tags/figs.py
@@ -51,7 +51,7 @@ class BaseFigure(Tag):
         # Set the html class
         if self.html_class is not None:
             if 'class' in attrs:
-                attrs['class'] = ' ' + self.html_class
+                attrs['class'] += ' ' + self.html_class
             else:
                 attrs['class'] = self.html_class
         return super().html_fmt(attributes=attrs, method=method, **kwargs)
-- 
2.43.0


From a250affe90689f73d18d93e066200ec9cf01ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:44 +0000
Subject: [PATCH 14/60] fix: assigning None to a weakattr removes the reference

---
 src/disseminate/utils/classes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/utils/classes.py b/src/disseminate/utils/classes.py
index 5738162..e71f192 100644
--- a/src/disseminate/utils/classes.py
+++ b/src/disseminate/utils/classes.py
@@ -135,11 +135,12 @@ class weakattr(object):
         return value() if callable(value) else None
 
     def __set__(self, obj, value):
-        if value is None:  # do nothing is a value of None is assigned
-            return
         weakref_dict = obj.__dict__.setdefault('__weakrefattrs__', dict())
         attrname = self.attrname(obj)
-        weakref_dict[attrname] = weakref.ref(value)
+        if value is None:  # assigning None removes the reference
+            weakref_dict.pop(attrname, None)
+        else:
+            weakref_dict[attrname] = weakref.ref(value)
 
     def __delete__(self, obj):
         weakref_dict = obj.__dict__.setdefault('__weakrefattrs__', dict())
-- 
2.43.0


From 571773182a1b27cccf48eeed4b4764f95f3c4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 15/60] fix: tags use the labels of their own document

---
 src/disseminate/label_manager/label_manager.py | 14 ++++++++++++--
 src/disseminate/tags/headings.py               |  3 ++-
 src/disseminate/tags/label.py                  |  9 ++++++---
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/label_manager/label_manager.py b/src/disseminate/label_manager/label_manager.py
index ba6d983..cf6c555 100644
--- a/src/disseminate/label_manager/label_manager.py
+++ b/src/disseminate/label_manager/label_manager.py
@@ -232,6 +232,13 @@ class LabelManager(object):
         if (doc_id, label_id) in self.labels:
             return self.labels[(doc_id, label_id)]
 
+        # If no doc_id is specified, a label from the document of the given
+        # context takes precedence
+        if doc_id is None and context is not None:
+            key = (context.get('doc_id', None), label_id)
+            if key in self.labels:
+                return self.labels[key]
+
         # Try to find the first label with a matching label_id, if no
         # doc_id is specified
         if doc_id is None:
@@ -331,7 +338,7 @@ class LabelManager(object):
 
         return returned_labels
 
-    def format_string(self, id, *keys, target=None):
+    def format_string(self, id, *keys, target=None, context=None):
         """Retrieve the formatted label string for a label.
 
         Label format strings are intended to be replaced with the values of the
@@ -347,8 +354,11 @@ class LabelManager(object):
             dict. (see :func:`find_entry <disseminate.utils.dict.find_entry>`)
         target : Optional[str]
             If specified, try finding format strings for the given target.
+        context : :obj:`DocumentContext <.DocumentContext>`
+            If specified, a label from the document of this context takes
+            precedence over labels with the same id in other documents.
         """
-        label = self.get_label(id=id)
+        label = self.get_label(id=id, context=context)
 
         dicts = []
         if 'label_fmts' in self.root_context:
diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index ee1e237..7994039 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -100,7 +100,8 @@ class Heading(Tag, LabelMixin):
             assert self.context.is_valid('label_manager')
 
             label_manager = self.context['label_manager']
-            label = label_manager.get_label(id=self.label_id)
+            label = label_manager.get_label(id=self.label_id,
+                                            context=self.context)
 
             number = label.order[-1] if label.order else None
             number -= 1  # Offset by -1 as the counter is increased
diff --git a/src/disseminate/tags/label.py b/src/disseminate/tags/label.py
index 18f4511..b0affda 100644
--- a/src/disseminate/tags/label.py
+++ b/src/disseminate/tags/label.py
@@ -263,7 +263,8 @@ class LabelTag(Tag):
         context = self.context
 
         if all(i is not None for i in (label_manager, label_id, context)):
-            format_str = label_manager.format_string(id=self.label_id)
+            format_str = label_manager.format_string(id=self.label_id,
+                                                     context=context)
             processed_tag = Tag(name='label', content=format_str,
                                 attributes='', context=context)
             return content_to_str(processed_tag.content)
@@ -278,7 +279,8 @@ class LabelTag(Tag):
 
         if all(i is not None for i in (label_manager, label_id, context)):
             format_str = label_manager.format_string(id=self.label_id,
-                                                     target='.tex')
+                                                     target='.tex',
+                                                     context=context)
 
             # Process the tags and format the contents for tex
             processed_tag = Tag(name='label', content=format_str,
@@ -301,7 +303,8 @@ class LabelTag(Tag):
             # Retrieve the format string for the label
             # Use the 'html' format_str for html and xhtml
             format_str = label_manager.format_string(id=self.label_id,
-                                                     target='.html')
+                                                     target='.html',
+                                                     context=context)
 
             # Process the tags and format the contents for html (html_fmt) or
             # xhtml (xhtml_fmt)
-- 
2.43.0


From ce6a9ec9290df184fd4d771441ebaddfd4933847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:31 +0000
Subject: [PATCH 16/60] fix: format references in plain text and for labels of
 other documents

---
 src/disseminate/label_manager/label_manager.py | 9 +++++----
 src/disseminate/tags/ref.py                    | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/disseminate/label_manager/label_manager.py b/src/disseminate/label_manager/label_manager.py
index cf6c555..b65db8f 100644
--- a/src/disseminate/label_manager/label_manager.py
+++ b/src/disseminate/label_manager/label_manager.py
@@ -4,7 +4,7 @@ The manager for labels.
 from collections import OrderedDict
 from threading import Lock
 
-from .types import ContentLabel, DocumentLabel
+from .types import Label, ContentLabel, DocumentLabel
 from .exceptions import LabelNotFound, DuplicateLabel
 from .register_orders import register_orders
 from .register_content_labels import register_content_labels
@@ -347,8 +347,8 @@ class LabelManager(object):
 
         Parameters
         ----------
-        id : str
-            The label of the label ex: 'ch:nmr-introduction'
+        id : Union[str, :obj:`Type[Label] <.label_manager.types.Label>`]
+            The label id ex: 'ch:nmr-introduction' or the label itself
         keys : Optional[List[str], Tuple[str]]
             If specified, use the given keys to find entries in the format_str
             dict. (see :func:`find_entry <disseminate.utils.dict.find_entry>`)
@@ -358,7 +358,8 @@ class LabelManager(object):
             If specified, a label from the document of this context takes
             precedence over labels with the same id in other documents.
         """
-        label = self.get_label(id=id, context=context)
+        label = (id if isinstance(id, Label) else
+                 self.get_label(id=id, context=context))
 
         dicts = []
         if 'label_fmts' in self.root_context:
diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index c8ec6ec..4bf1911 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -224,8 +224,8 @@ class Ref(Tag):
 
         if all(i is not None for i in (label_manager, label, context)):
             # Format the format string keys for a ref
-            keys = ('ref', *label.kinds)
-            format_str = label_manager.format_string(id=self.label.id, *keys)
+            keys = ('ref', *label.kind)
+            format_str = label_manager.format_string(label, *keys)
 
             processed_tag = Tag(name='ref', content=format_str, attributes='',
                                 context=context)
@@ -272,7 +272,7 @@ class Ref(Tag):
         if all(i is not None for i in (label_manager, label, context)):
             # Retrieve the format string for the reference
             keys = ('ref', *label.kind)
-            format_str = label_manager.format_string(label.id, *keys,
+            format_str = label_manager.format_string(label, *keys,
                                                      target='.tex')
 
             # process the tags and format the contents
@@ -344,7 +344,7 @@ class Ref(Tag):
             # Retrieve the format string for the reference
             # Use the 'html' format_str for html and xhtml
             keys = ('ref', *label.kind)
-            format_str = label_manager.format_string(label.id, *keys,
+            format_str = label_manager.format_string(label, *keys,
                                                      target='.html')
 
             # substitute the link, process the tags and format the contents
-- 
2.43.0


From 83fe2990bd91898c591c93afbf90ba6d4442166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:33 +0000
Subject: [PATCH 17/60] fix: navigation labels for the targets of all documents

---
 src/disseminate/tags/navigation.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index ea59049..4c2df73 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -42,11 +42,7 @@ def set_navigation_labels(root_document):
 
     # Set the prev_labels and next_labels entries in the context of each
     # document
-    for target in targets:
-        if target not in doc_ids_by_target:
-            continue
-        doc_ids = doc_ids_by_target[target]
-
+    for target, doc_ids in doc_ids_by_target.items():
         for document in documents:
             doc_id = document.doc_id
 
-- 
2.43.0


From c1f712579552505400b8557193bc2c679f1c7eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 18/60] fix: format the links of navigation tags for tex

---
 src/disseminate/tags/navigation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index 4c2df73..c5d54f1 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -109,7 +109,7 @@ class Next(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Next, self).html_fmt(cache=cache, **kwargs)
+            return super(Next, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
@@ -165,7 +165,7 @@ class Prev(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Prev, self).html_fmt(cache=cache, **kwargs)
+            return super(Prev, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
-- 
2.43.0


From 2df34ce098d6e97c2e1139373ea18bbffc0cdc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:59 +0000
Subject: [PATCH 19/60] fix: load each included document once

---
 src/disseminate/document/document.py | 50 +++++++++++++---------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index a7efe78..0551684 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -89,6 +89,12 @@ class Document(object):
                                        environment=environment,
                                        parent_context=parent_context)
 
+        # Add this document to the sub-documents of its parent document, so that
+        # it is in the project when its sub-documents are loaded.
+        parent_document = getattr(parent_context, 'document', None)
+        if parent_document is not None:
+            parent_document.subdocuments[self.src_filepath] = self
+
         # Read in the document and load sub-documents
         self.load(level=level)
 
@@ -457,16 +463,10 @@ class Document(object):
         # Get the build environment for the project
         environment = self.context['environment']
 
-        # Get a dict with all documents in a project
-        root_dict = root_document.documents_dict(document=root_document,
-                                                 only_subdocuments=False,
-                                                 recursive=True)
-
-        # Get a dict with all documents owned by this document. This document
-        # can control those documents, but it cannot control other documents in
-        # the root_dict. This avoids recursion.
-        subs_dict = self.documents_dict(only_subdocuments=False,
-                                        recursive=True)
+        # Get the documents owned by this document. This document can control
+        # those documents, but it cannot control other documents in the
+        # project.
+        subs_dict = self.documents_dict(only_subdocuments=True)
 
         # Clear the subdocuments ordered dict and add new entries. Old entries
         # will automatically be deleted if the subdocument no longer holds a
@@ -477,32 +477,28 @@ class Document(object):
         src_filepaths = self.context.includes
 
         for src_filepath in src_filepaths:
-            # If the src_filepath is the same as this document, do nothing, as
-            # a document shouldn't have itself as a subdocument
-            if src_filepath == self.src_filepath:
+            # If the document is this document or it is already in the project,
+            # do nothing. The dict of documents is evaluated for each document
+            # because loading a sub-document may add documents. This avoids
+            # recursion and loading a document twice.
+            root_dict = root_document.documents_dict(recursive=True)
+            if (src_filepath == self.src_filepath or
+                    src_filepath in root_dict):
                 continue
 
             # If the document is already loaded and controlled by this
             # document, copy it to the subdocuments ordered dict
             elif src_filepath in subs_dict:
                 subdoc = subs_dict[src_filepath]
+                self.subdocuments[src_filepath] = subdoc
                 document_loaded |= subdoc.load(level=level + 1)
 
-                if self.src_filepath not in subdoc.subdocuments:
-                    self.subdocuments[src_filepath] = subdoc
-
-            # The document could not be found, at this point. Create it--as
-            # long as it's not controlled by another document--i.e. it's not
-            # already loaded in root_dict
-            elif src_filepath not in root_dict:
-                subdoc = Document(src_filepath=src_filepath,
-                                  environment=environment,
-                                  parent_context=self.context,
-                                  level=level + 1)
-                self.subdocuments[src_filepath] = subdoc
-                document_loaded |= True
+            # The document could not be found, at this point. Create it. The
+            # created document adds itself to the subdocuments.
             else:
-                continue
+                Document(src_filepath=src_filepath, environment=environment,
+                         parent_context=self.context, level=level + 1)
+                document_loaded |= True
 
         # Update the subdocuments mtimes to this document's mtime. The
         # sub-document's mtime must updated so that a load_required is not
-- 
2.43.0


From 32de3faf78f07515b1b593e2887700e6cb8825fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:49 +0000
Subject: [PATCH 20/60] fix: reload sub-documents when their parent document is
 reloaded

---
 src/disseminate/document/document.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 0551684..52b749b 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -398,8 +398,11 @@ class Document(object):
 
         # Load the sub-documents. This is done after processing the string
         # and ast since these may include sub-files, which should be read
-        # in before being loaded.
-        document_loaded |= self.load_subdocuments(level=level + 1)
+        # in before being loaded. If this document was (re)loaded, its
+        # sub-documents are reloaded too because they inherit entries from the
+        # context of this document.
+        document_loaded |= self.load_subdocuments(level=level + 1,
+                                                  reload=document_loaded)
 
         # Emit a signal if this is the root document and a document (or sub-
         # document) was reloaded
@@ -437,7 +440,7 @@ class Document(object):
 
         return mtime
 
-    def load_subdocuments(self, level=1):
+    def load_subdocuments(self, level=1, reload=False):
         """Load the sub-documents listed in the include entries in the
         context.
 
@@ -446,6 +449,8 @@ class Document(object):
         level : Optional[int]
             The level of document loaded. Sub-documents are loaded at a higher
             level (>1) than the root document.
+        reload : Optional[bool]
+            If True, force the reload of the sub-documents.
 
         Returns
         -------
@@ -491,7 +496,7 @@ class Document(object):
             elif src_filepath in subs_dict:
                 subdoc = subs_dict[src_filepath]
                 self.subdocuments[src_filepath] = subdoc
-                document_loaded |= subdoc.load(level=level + 1)
+                document_loaded |= subdoc.load(reload=reload, level=level + 1)
 
             # The document could not be found, at this point. Create it. The
             # created document adds itself to the subdocuments.
-- 
2.43.0


From 282f2235c443f134731fab3c51bb3fb90598829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 21/60] fix: normalize the paths of included documents

---
 src/disseminate/document/document_context.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/document/document_context.py b/src/disseminate/document/document_context.py
index bcc4cab..33758fd 100644
--- a/src/disseminate/document/document_context.py
+++ b/src/disseminate/document/document_context.py
@@ -1,6 +1,7 @@
 """
 The document context
 """
+import os
 import weakref
 from copy import deepcopy
 
@@ -330,12 +331,14 @@ class DocumentContext(BaseContext):
         includes = [path.strip() for path in includes.split('\n')
                     if not path.isspace() and path != '']
 
-        # Reconstruct the paths relative to the context's src_filepath.
+        # Reconstruct the paths relative to the context's src_filepath. The
+        # subpaths are normalized (ex: 'sub/../file.dm' is 'file.dm') because
+        # the src_filepath identifies the document in the project.
         src_filepath = self['src_filepath']
         subpath = src_filepath.subpath.parent
         project_root = src_filepath.project_root
 
         includes = [SourcePath(project_root=project_root,
-                               subpath=subpath / path)
+                               subpath=os.path.normpath(subpath / path))
                     for path in includes]
         return includes
-- 
2.43.0


From 791194a68c624690c3b74b84e9c3e9a61250f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 22/60] fix: strip the item of a list with one item

---
 src/disseminate/utils/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index 3977041..a8354fb 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -320,7 +320,7 @@ def str_to_list(string):
     if len(pieces_comma) > 1:
         return [piece.strip() for piece in pieces_comma]
 
-    return [string]
+    return [string.strip()]
 
 
 _re_entry = regex.compile(r'^(?P<space_level>\s*)'
-- 
2.43.0


From e3ee91937a7f47b026414b30e420c2f8ff992861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:18 +0000
Subject: [PATCH 23/60] fix: identify inputs and output in the hashes of build
 decisions

---
 src/disseminate/builders/deciders/md5decider.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index efca2ad..12e749e 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -1,6 +1,8 @@
 """
 A decider that uses MD5 hashes.
 """
+import pathlib
+
 import diskcache
 
 from .decider import Decider, Decision
@@ -44,8 +46,11 @@ class Md5Decision(Decision):
     @staticmethod
     def calculate_hash(inputs, output):
         """Calculate the md5 hash for the inputs, output and args."""
-        sorted_inputs = sorted(inputs, key=str)
-        hash_input = hash_items(*sorted_inputs)
+        # The input hash identifies the contents of each input, as well as the
+        # output because builders may have the same inputs.
+        sorted_inputs = sorted(inputs, key=lambda i: (
+            isinstance(i, pathlib.Path), str(i)))
+        hash_input = hash_items(*sorted_inputs, str(output), sort=False)
         hash_output = hash_items(output)
 
         return (hash_input, hash_output)
-- 
2.43.0


From ad8bc2ec83d34515ce08f969bea36371b04e3f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:18 +0000
Subject: [PATCH 24/60] fix: render documents again when a source of the
 project changes

---
 src/disseminate/builders/builder.py      | 10 +++++++---
 src/disseminate/builders/jinja_render.py | 13 +++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 9477a7f..8de19de 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -279,12 +279,16 @@ class Builder(metaclass=ABCMeta):
         if self.decision is None:
             decider = self.env.decider
             self.decision = decider.decision
+        return self.decision.build_needed(inputs=self.build_inputs(),
+                                          output=self.outfilepath,
+                                          reset=reset)
+
+    def build_inputs(self):
+        """The list of inputs for the decision to build."""
         inputs = list(self.parameters)
         if self.action:
             inputs.append(self.action)
-        return self.decision.build_needed(inputs=inputs,
-                                          output=self.outfilepath,
-                                          reset=reset)
+        return inputs
 
     @property
     def parameters(self):
diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 996ec2b..a5764df 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -191,6 +191,19 @@ class JinjaRender(Builder):
     def parameters(self, value):
         self._parameters = value
 
+    def build_inputs(self):
+        inputs = super().build_inputs()
+
+        # The render of a document depends on the source files of the project:
+        # it uses the entries of its header, entries inherited from other
+        # documents and the labels of other documents (references, numbers,
+        # tables of contents and navigation).
+        root_document = getattr(self.context, 'root_document', None)
+        if root_document is not None:
+            docs = root_document.documents_list(recursive=True)
+            inputs += [doc.src_filepath for doc in docs]
+        return inputs
+
     @property
     def outfilepath(self):
         outfilepath = self._outfilepath
-- 
2.43.0


From 4d3c16de20ad215e8543f687c973efc89b6b0391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:18 +0000
Subject: [PATCH 25/60] fix: references to documents without the target

---
 src/disseminate/tags/ref.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 4bf1911..ab66043 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -4,6 +4,7 @@ The Ref tag to reference captions and other labels.
 from .tag import Tag
 from .exceptions import assert_content_str
 from .utils import content_to_str, format_content
+from ..document.exceptions import TargetNotFound
 from ..label_manager.types import DocumentLabel
 from ..signals import signal
 from ..formats import xhtml_tag, tex_cmd
@@ -156,9 +157,9 @@ class Ref(Tag):
 
         Returns
         -------
-        url_path : str
+        url_path : Union[str, None]
             The url path for the document owning the label referenced by this
-            tag.
+            tag, or None if one of the documents doesn't have the target.
         """
         context = self.context
         cache = dict() if cache is None else cache
@@ -184,13 +185,14 @@ class Ref(Tag):
         # In this case, the label and tag documents are different. Return a
         # link to the label's document.
         document = self.document(cache=cache)
-        target_filepath = document.target_filepath(target)
 
-        if target_filepath is None:
+        try:
+            target_filepath = document.target_filepath(target)
+            link = target_filepath.get_url(context=self.context)
+        except TargetNotFound:
+            # There is no link, if one of the documents doesn't have the target
             return None
 
-        link = target_filepath.get_url(context=self.context)
-
         return link + '#' + label.id if include_anchor else link
 
     def default_fmt(self, content=None, attributes=None, cache=None, **kwargs):
@@ -362,11 +364,15 @@ class Ref(Tag):
             # for a DocumentLabel. DocumentLabels should just point to the
             # file itself.
             include_anchor = not isinstance(label, DocumentLabel)
-            attrs['href'] = self.url(target=method, cache=cache,
-                                     include_anchor=include_anchor)
-
-            # wrap content in 'a' tag
-            return xhtml_tag('a', attributes=attrs, formatted_content=content,
+            url = self.url(target=method, cache=cache,
+                           include_anchor=include_anchor)
+            if url is not None:
+                attrs['href'] = url
+
+            # wrap content in 'a' tag, if there is a link
+            tag_name = 'a' if url is not None else 'span'
+            return xhtml_tag(tag_name, attributes=attrs,
+                             formatted_content=content,
                              level=level, method=method,
                              pretty_print=False)  # no line breaks
         else:
-- 
2.43.0


From d3a95f6a1b2d03ce405b0ea127334e2a07e30b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:40 +0000
Subject: [PATCH 26/60] fix: bold terms and equations have different rendered
 images

---
 src/disseminate/tags/eqs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disseminate/tags/eqs.py b/src/disseminate/tags/eqs.py
index 9e47d7d..8dc2b67 100644
--- a/src/disseminate/tags/eqs.py
+++ b/src/disseminate/tags/eqs.py
@@ -110,6 +110,11 @@ class Eq(Img):
         attrs['crop'] = (100, 100, 0, 0)
         attrs['offset'] = (0, 0, -1, 0)
 
+        # Bold terms and other equations with the same contents have different
+        # images
+        if self.name == 'termb':
+            attrs['bold'] = True
+
         if self.block_equation:
             attrs['class'] = 'eq blockeq'
         else:
-- 
2.43.0


From a28c87c9227ce9f079daac2754f2f3b7f77ac67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:01 +0000
Subject: [PATCH 27/60] fix: keep paths with spaces as single arguments of
 commands

---
 src/disseminate/builders/builder.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 8de19de..e112a0e 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -23,11 +23,16 @@ class CustomFormatter(Formatter):
     """A custom formatter class for preparing actions into command-line
     arguments."""
 
+    #: The separator for the items of lists and tuples. Paths do not have null
+    #: characters.
+    separator = "\0"
+
     def get_field(self, field_name, args, kwargs):
         field_value, field_name = super().get_field(field_name, args, kwargs)
         if isinstance(field_value, list) or isinstance(field_value, tuple):
-            # Make lists/tuples into space-separated strings
-            field_value = " ".join(self.clean_field(f) for f in field_value)
+            # Make lists/tuples into strings with separated items
+            field_value = self.separator.join(self.clean_field(f)
+                                              for f in field_value)
             return field_value, field_name
         return self.clean_field(field_value), field_name
 
@@ -434,9 +439,12 @@ class Builder(metaclass=ABCMeta):
             A tuple of the arguments to run in a process.
         """
         if isinstance(self.action, str):
+            # Format each argument separately since paths may have spaces
             fmt = CustomFormatter()
-            fmt_action = fmt.format(self.action, builder=self)
-            return tuple(fmt_action.split())
+            args = []
+            for arg in self.action.split():
+                args += fmt.format(arg, builder=self).split(fmt.separator)
+            return tuple(filter(bool, args))
         else:
             return tuple()
 
-- 
2.43.0


From e4cd0b14b801bdda65c66142ccedf98627098997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:01 +0000
Subject: [PATCH 28/60] fix: pass the page number to pdf2svg as a string

---
 src/disseminate/builders/pdf2svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/pdf2svg.py b/src/disseminate/builders/pdf2svg.py
index d0d22e4..b928035 100644
--- a/src/disseminate/builders/pdf2svg.py
+++ b/src/disseminate/builders/pdf2svg.py
@@ -33,7 +33,7 @@ class Pdf2svg(Builder):
     def run_cmd_args(self):
         args = list(super().run_cmd_args())
         if isinstance(self.page_no, int):
-            args += [self.page_no]
+            args += [str(self.page_no)]
         return tuple(args)
 
 
-- 
2.43.0


From 3e0e5208972327b7aca8d6096ec658b5b857cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:26 +0000
Subject: [PATCH 29/60] fix: rename files without an extension

---
 src/disseminate/paths/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/paths/utils.py b/src/disseminate/paths/utils.py
index b0dfa96..97d974d 100644
--- a/src/disseminate/paths/utils.py
+++ b/src/disseminate/paths/utils.py
@@ -54,7 +54,8 @@ def rename(path, filename=None, append=None, extension=None):
 
     # Get the extension and workup as necessary
     extension = path.suffix if extension is None else extension
-    extension = '.' + extension if not extension.startswith('.') else extension
+    if extension and not extension.startswith('.'):
+        extension = '.' + extension
 
     # Return the renamed path
     return parent / (filename + extension)
-- 
2.43.0


From c67412da908d7153ed212a775b641d01751d18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:30 +0000
Subject: [PATCH 30/60] fix: hashes of pdf files depend on their line breaks

---
 src/disseminate/builders/deciders/utils_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/deciders/utils_hash.py b/src/disseminate/builders/deciders/utils_hash.py
index c3e35e8..b8d1b29 100644
--- a/src/disseminate/builders/deciders/utils_hash.py
+++ b/src/disseminate/builders/deciders/utils_hash.py
@@ -136,6 +136,6 @@ def hash_pdf(filepath, chunk_size, hashfunc,
                                   tail=b''):
             if any(line.startswith(starter) for starter in startswith):
                 continue
-            hashobj.update(line)
+            hashobj.update(line + b'\n')
 
     return hashobj.digest()
-- 
2.43.0


From 9ff12bca88f95981608e59a4fcc20aff8becb043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:23 +0000
Subject: [PATCH 31/60] fix: run the later steps of sequences in parallel
 builders

---
 .../builders/composite_builders/composite_builder.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disseminate/builders/composite_builders/composite_builder.py b/src/disseminate/builders/composite_builders/composite_builder.py
index 9863552..c964462 100644
--- a/src/disseminate/builders/composite_builders/composite_builder.py
+++ b/src/disseminate/builders/composite_builders/composite_builder.py
@@ -109,6 +109,10 @@ class CompositeBuilder(Builder):
             for subbuilder in list(self.subbuilders):
                 if subbuilder.status == 'done':
                     self.subbuilders.remove(subbuilder)
+                elif not self.parallel:
+                    # The following subbuilders may be done for the current
+                    # files only: these change when this subbuilder is run
+                    break
 
         return status
 
-- 
2.43.0


From 0398e75f6aebf01452dcf81b9ba510a542a58e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:23 +0000
Subject: [PATCH 32/60] fix: do not use the name of a file as an equation's
 image file

---
 src/disseminate/tags/eqs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disseminate/tags/eqs.py b/src/disseminate/tags/eqs.py
index 8dc2b67..9635874 100644
--- a/src/disseminate/tags/eqs.py
+++ b/src/disseminate/tags/eqs.py
@@ -67,6 +67,11 @@ class Eq(Img):
     def block_equation(self, value):
         self._block_equation = value
 
+    def content_as_filepath(self, content=None, context=None):
+        # The content of an equation is tex, even if there is a file with the
+        # same name
+        return None
+
     def tex_fmt(self, content=None, attributes=None, mathmode=False,
                 **kwargs):
         # Retrieve unspecified arguments
-- 
2.43.0


From 063528002eb75cc05366ef0840c1203f1d10b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:23 +0000
Subject: [PATCH 33/60] fix: keep the dots in the urls of target paths

---
 src/disseminate/paths/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/paths/paths.py b/src/disseminate/paths/paths.py
index 69985f3..837ebc7 100644
--- a/src/disseminate/paths/paths.py
+++ b/src/disseminate/paths/paths.py
@@ -232,7 +232,7 @@ class TargetPath(object):
         # Get the parts of paths that will be used
         target_root = str(self.target_root).strip('.')
         target = str(target or self.target).strip('.')
-        subpath = str(self.subpath).strip('.')
+        subpath = str(self.subpath) if self.subpath.parts else ''
 
         url_str = (context['base_url'] if isinstance(context, dict) and
                    'base_url' in context else '/{target}/{subpath}')
-- 
2.43.0


From a5ad2f9ddb23425caebe8f9a769dc8fc061b426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:23 +0000
Subject: [PATCH 34/60] fix: scan for missing files without raising an error

---
 src/disseminate/builders/scanners/scanner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/disseminate/builders/scanners/scanner.py b/src/disseminate/builders/scanners/scanner.py
index 0d69422..62431c0 100644
--- a/src/disseminate/builders/scanners/scanner.py
+++ b/src/disseminate/builders/scanners/scanner.py
@@ -112,7 +112,6 @@ class Scanner(object):
                 if not valid_paths and raise_error:
                     msg = "Could not find the file '{}' in paths: '{}'"
                     raise FileNotFoundError(msg.format(stub, test_paths))
-                else:
-                    new_infilepaths.append(valid_paths[0])
+                new_infilepaths += valid_paths[:1]
 
         return new_infilepaths
-- 
2.43.0


From d7e119cf4e6749f3b6bc728d58dc9d55e3e15455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:23 +0000
Subject: [PATCH 35/60] fix: rebuild epubs when the files in the epub change

---
 src/disseminate/builders/xhtml2epub.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index eedb186..c88e02b 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -11,6 +11,7 @@ from datetime import datetime, timezone
 from .composite_builders import SequentialBuilder
 from ..paths.utils import find_file
 from ..utils.classes import weakattr
+from ..utils.list import uniq
 from ..utils.string import slugify
 
 
@@ -79,6 +80,22 @@ class XHtml2Epub(SequentialBuilder):
     def parameters(self, value):
         SequentialBuilder.parameters.fset(self, value)
 
+    def build_inputs(self):
+        # The files in the epub include those that the xhtml files refer to,
+        # like images
+        parameters = self.parameters
+        parameters += self.env.scanner.scan(parameters=parameters,
+                                            raise_error=False)
+        return uniq(parameters) + [self.action]
+
+    @property
+    def status(self):
+        status = super().status
+        # A build is also needed if the files in the epub have changed
+        if status == 'done' and self.build_needed():
+            return 'ready'
+        return status
+
     def create_opf_builder(self, template_name='default/xhtml/content.opf'):
         """Create a render builder for the content.opf file.
 
@@ -157,7 +174,8 @@ class XHtml2Epub(SequentialBuilder):
         self.scan_parameters()
 
         # Build subbuilders first
-        super().build(complete=complete)
+        for subbuilder in self.subbuilders:
+            subbuilder.build(complete=complete)
 
         context = self.context
         outfilepath = self.outfilepath
-- 
2.43.0


From 2d82cf3bf7b5e834536a2eec826ed98646959620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:23 +0000
Subject: [PATCH 36/60] fix: rebuild documents when the files used by their
 tags change

---
 src/disseminate/builders/jinja_render.py |  8 ++++++
 src/disseminate/document/document.py     | 31 ++++++++++++++++++++++++
 src/disseminate/tags/code.py             |  7 ++++++
 src/disseminate/tags/data.py             |  7 +++++-
 src/disseminate/tags/img.py              |  5 ++++
 src/disseminate/tags/tag.py              |  5 ++++
 6 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index a5764df..e2440fe 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -202,6 +202,14 @@ class JinjaRender(Builder):
         if root_document is not None:
             docs = root_document.documents_list(recursive=True)
             inputs += [doc.src_filepath for doc in docs]
+
+        # The render also depends on the files of the document's tags, like
+        # images. These are built with the render, so it is needed each time
+        # that they are modified (including to their previous contents).
+        document = getattr(self.context, 'document', None)
+        if document is not None:
+            for path, mtime in document.tag_mtimes().items():
+                inputs += [path, str(mtime)]
         return inputs
 
     @property
diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 52b749b..3a74a9b 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -12,6 +12,11 @@ from ..paths import SourcePath
 from .. import settings
 
 
+def get_mtime(filepath):
+    """The modification time of a file, or None if it does not exist."""
+    return filepath.stat().st_mtime if filepath.is_file() else None
+
+
 class Document(object):
     """A base class document rendered from a source file to one or more
     target files.
@@ -63,6 +68,9 @@ class Document(object):
     #: A flag to determine whether the document was successfully loaded
     _succesfully_loaded = False
 
+    #: The modification times of the files used by tags, when loaded
+    _tag_mtimes = None
+
     def __init__(self, src_filepath, environment, parent_context=None,
                  level=1):
         logging.debug("Creating document: {}".format(src_filepath))
@@ -304,6 +312,21 @@ class Document(object):
 
         return list(doc_dict.values())
 
+    def tag_mtimes(self):
+        """The modification times of the files used by the tags of this
+        document.
+
+        Returns
+        -------
+        mtimes : Dict[:obj:`pathlib.Path`, Union[float, None]]
+            The filepaths, like those of images, and their modification times.
+        """
+        tags = [tag for value in self.context.values()
+                if hasattr(value, 'flatten')
+                for tag in value.flatten(filter_tags=True)]
+        return {path: get_mtime(path) for tag in tags
+                for path in tag.filepaths}
+
     def load_required(self):
         """Evaluate whether a load is required.
 
@@ -347,6 +370,13 @@ class Document(object):
                           "than this document.".format(self))
             return True
 
+        # 5. A file used by the tags of this document has changed
+        if any(get_mtime(path) != mtime
+               for path, mtime in self._tag_mtimes.items()):
+            logging.debug("Load required for {}: The files used by tags have "
+                          "changed.".format(self))
+            return True
+
         return False
 
     def load(self, reload=False, level=1):
@@ -394,6 +424,7 @@ class Document(object):
 
             # The document has been loaded
             self._succesfully_loaded = True
+            self._tag_mtimes = self.tag_mtimes()
             document_loaded |= True
 
         # Load the sub-documents. This is done after processing the string
diff --git a/src/disseminate/tags/code.py b/src/disseminate/tags/code.py
index ec60a93..bb7047d 100644
--- a/src/disseminate/tags/code.py
+++ b/src/disseminate/tags/code.py
@@ -23,16 +23,23 @@ class Code(Tag):
 
     html_name = 'code'
 
+    _filepaths = ()
+
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
         # Load files, if needed
         files = find_files(self.content, self.context)
 
+        self._filepaths = files
         if len(files) > 0:
             new_content = "\n".join([file.read_text() for file in files])
             self.content = new_content
 
+    @property
+    def filepaths(self):
+        return list(self._filepaths)
+
     @property
     def lexer(self):
         """Get the lexer for code highlighting."""
diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 60b3da5..804f6ed 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -8,7 +8,7 @@ from collections import OrderedDict
 from .tag import Tag
 from .utils import format_content
 from ..utils.list import transpose
-from ..paths.utils import load_io_stream
+from ..paths.utils import find_files, load_io_stream
 from ..formats.xhtml import xhtml_tag
 from ..formats.tex import tex_cmd
 
@@ -77,6 +77,11 @@ class Data(Tag):
         """
         pass
 
+    @property
+    def filepaths(self):
+        return (find_files(self.content, self.context)[:1]
+                if isinstance(self.content, str) else [])
+
     def process_tags(self):
         """Process the tags for the items in the tag's data."""
         assert self.data is not None, "Data not loaded."
diff --git a/src/disseminate/tags/img.py b/src/disseminate/tags/img.py
index 2a14a61..fb884ea 100644
--- a/src/disseminate/tags/img.py
+++ b/src/disseminate/tags/img.py
@@ -52,6 +52,11 @@ class Img(Tag):
         super().__init__(*args, **kwargs)
         self._outfilepaths = dict()
 
+    @property
+    def filepaths(self):
+        filepath = self.content_as_filepath()
+        return [filepath] if filepath is not None else []
+
     def content_as_filepath(self, content=None, context=None):
         """Returns a filepath from the content, if it's a valid filepath,
         or returns None if it isn't.
diff --git a/src/disseminate/tags/tag.py b/src/disseminate/tags/tag.py
index e97eab0..f181fb4 100644
--- a/src/disseminate/tags/tag.py
+++ b/src/disseminate/tags/tag.py
@@ -205,6 +205,11 @@ class Tag(object):
             flattened_list = [t for t in flattened_list if isinstance(t, Tag)]
         return flattened_list
 
+    @property
+    def filepaths(self):
+        """The list of the filepaths for the files used by this tag"""
+        return []
+
     @property
     def default(self):
         return self.default_fmt()
-- 
2.43.0


From 8f308f2cc43baa86389755cd44070b30933229be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:30 +0000
Subject: [PATCH 37/60] fix: keep the hashes of mock parameters for names with
 dots

---
 src/disseminate/builders/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/utils.py b/src/disseminate/builders/utils.py
index 90e6629..a3c363a 100644
--- a/src/disseminate/builders/utils.py
+++ b/src/disseminate/builders/utils.py
@@ -80,7 +80,10 @@ def generate_mock_parameters(env, parameters, project_root=None, subpath=None,
     filename = pathlib.Path(filename)
 
     # Set the extension, if specified
-    if ext:
+    if ext and hash_value:
+        # The filename ends with the hash and it has no suffix to replace
+        filename = pathlib.Path(str(filename) + ext)
+    elif ext:
         filename = filename.with_suffix(ext)
 
     if subpath:
-- 
2.43.0


From 90e9798827d361716d82690488fe91d6342bf0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:30 +0000
Subject: [PATCH 38/60] fix: compare the media path with the parts of paths

---
 src/disseminate/builders/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/builders/utils.py b/src/disseminate/builders/utils.py
index a3c363a..9b61482 100644
--- a/src/disseminate/builders/utils.py
+++ b/src/disseminate/builders/utils.py
@@ -165,12 +165,12 @@ def generate_outfilepath(env, parameters, target=None, append=None, ext=None,
     if hasattr(subpath, 'is_absolute') and subpath.is_absolute():
         subpath = pathlib.Path(subpath.name)
 
-    # Add media_path, if specified
-    if media_path and not str(subpath).startswith(media_path):
-        subpath = rename(path=media_path / subpath, append=append,
-                         extension=ext)
-    else:
-        subpath = rename(path=subpath, append=append, extension=ext)
+    # Add media_path, if specified, unless the subpath is in it already
+    if media_path:
+        media_parts = pathlib.Path(media_path).parts
+        if subpath.parts[:len(media_parts)] != media_parts:
+            subpath = media_path / subpath
+    subpath = rename(path=subpath, append=append, extension=ext)
 
     # Return the new TargetPath
     return (TargetPath(target_root=target_root, target=target, subpath=subpath)
-- 
2.43.0


From 597a2b3541a054933ec4b0ef5a55cee0e50a52f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:15 +0000
Subject: [PATCH 39/60] fix: list the labels of all documents with the same id
 in tables of contents

---
 src/disseminate/tags/toc.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index ac275b7..5841ecc 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -25,6 +25,14 @@ class TocRef(Ref):
 
     html_name = "li"
 
+    #: The label of the entry. Labels in different documents may have the same
+    #: id
+    toc_label = None
+
+    @property
+    def label(self):
+        return self.toc_label if self.toc_label is not None else super().label
+
     def tex_fmt(self, content=None, attributes=None, mathmode=False,
                 cache=None, level=1, **kwargs):
         list_level = self.attributes['level']
@@ -184,6 +192,7 @@ class Toc(Tag):
             tag = TocRef(name=tag_name, content=label.id,
                          attributes=self.attributes, context=self.context)
             tag.attributes['level'] = level
+            tag.toc_label = label
 
             tags.append(tag)
 
@@ -204,16 +213,11 @@ class Toc(Tag):
         documents_by_id = (root_document.documents_by_id(recursive=True)
                            if root_document is not None else None)
 
-        # Get the labels
-        labels = self.get_labels()
-        labels_by_id = {label.id: label for label in labels}
-
         for tag in tags:
             listlevel = tag.attributes['level']
-            label = labels_by_id.get(tag.label_id, None)
 
             cache = dict() if cache is None else cache
-            cache['label'] = label
+            cache['label'] = tag.label
             cache['documents_by_id'] = documents_by_id
 
             func = getattr(tag, format_func)
-- 
2.43.0


From d404d42bed95656742e03860fb211c8feb4b1c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:15 +0000
Subject: [PATCH 40/60] fix: find the toc.xhtml of the documents of epubs

---
 src/disseminate/builders/target_builders/epub_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/target_builders/epub_builder.py b/src/disseminate/builders/target_builders/epub_builder.py
index 8b0a31f..0b24f2c 100644
--- a/src/disseminate/builders/target_builders/epub_builder.py
+++ b/src/disseminate/builders/target_builders/epub_builder.py
@@ -77,7 +77,7 @@ class EpubBuilder(TargetBuilder):
     def has_toc_xhtml(self, xhtml_filepaths=None):
         """Evaluates whether there is a toc.xhtml file in the xhtml files."""
         xhtml_filepaths = xhtml_filepaths or self.xhtml_filepaths()
-        return any(filepath.subpath == 'toc.xhtml'
+        return any(str(filepath.subpath) == 'toc.xhtml'
                    for filepath in xhtml_filepaths)
 
     def create_toc_xhtml_builder(self, context=None,
-- 
2.43.0


From caeece2c5e562397c9ed5d4bfd090173006f7844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:15 +0000
Subject: [PATCH 41/60] fix: use unique and valid ids for the files of epubs

---
 src/disseminate/builders/xhtml2epub.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index c88e02b..aa31434 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -113,7 +113,9 @@ class XHtml2Epub(SequentialBuilder):
         # Place the title.xhtml and toc.xhtml file at the front of the
         # filepaths
         front_fps = ([fp for fp in fps if fp.name == 'title.xhtml'] +
-                     [fp for fp in fps if fp.name == 'toc.xhtml'])
+                     [fp for fp in fps
+                      if str(getattr(fp, 'subpath', '')) ==
+                      self.toc_filename])
         fps = front_fps + [fp for fp in fps if fp not in front_fps]
 
         render_context = (self._render_context or
@@ -146,20 +148,28 @@ class XHtml2Epub(SequentialBuilder):
     def filepath_dict_list(self, filepaths, suffix):
         """Create a list of dicts from the given filepaths"""
         rv = []
+        ids = set()
         for filepath in filepaths:
             if filepath.suffix != suffix:
                 continue
 
-            # Is the filepath a toc file?
-            is_toc = filepath.name == self.toc_filename
-
             # Generate the subpath for the file, as this is the relative
             # path in the epub container. Make sure to strip '..' relpath
             # elements, as this can create compatibility issues.
             subpath = str(os.path.normpath(filepath.subpath))
 
-            # Generate the navigation identifier for the file
-            id = slugify(subpath) if not is_toc else 'toc'
+            # Is the filepath the toc file?
+            is_toc = subpath == self.toc_filename
+
+            # Generate the navigation identifier for the file. It must start
+            # with a letter and be unique.
+            slug = slugify(subpath) if not is_toc else 'toc'
+            slug = slug if slug[0].isalpha() else 'id-' + slug
+            id, count = slug, 1
+            while id in ids:
+                count += 1
+                id = '{}-{}'.format(slug, count)
+            ids.add(id)
 
             rv.append({'id': id,
                        'subpath': subpath,
-- 
2.43.0


From ff86b3036106d1da0979344cbd3af7113162a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:15 +0000
Subject: [PATCH 42/60] fix: list the png files of epubs in their manifest

---
 src/disseminate/builders/xhtml2epub.py              | 1 +
 src/disseminate/templates/default/xhtml/content.opf | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index aa31434..0cb7e81 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -124,6 +124,7 @@ class XHtml2Epub(SequentialBuilder):
         render_context['template'] = template_name
         render_context['xhtml_files'] = self.filepath_dict_list(fps, '.xhtml')
         render_context['svg_files'] = self.filepath_dict_list(fps, '.svg')
+        render_context['png_files'] = self.filepath_dict_list(fps, '.png')
         render_context['css_files'] = self.filepath_dict_list(fps, '.css')
 
         # Add required entries, if not present
diff --git a/src/disseminate/templates/default/xhtml/content.opf b/src/disseminate/templates/default/xhtml/content.opf
index a0a5c4f..9e9c35e 100644
--- a/src/disseminate/templates/default/xhtml/content.opf
+++ b/src/disseminate/templates/default/xhtml/content.opf
@@ -63,6 +63,11 @@
           id="{{ file.id }}"
           media-type="image/svg+xml"/>
     {%- endfor %}
+    {%- for file in png_files %}
+    <item href="{{ file.subpath }}"
+          id="{{ file.id }}"
+          media-type="image/png"/>
+    {%- endfor %}
   </manifest>
   <spine>
     <!-- The default reading order of elements -->
-- 
2.43.0


From eb3e5d44457a043e0947ca6304d4cd4ffe844fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:11 +0000
Subject: [PATCH 43/60] fix: rebuild epubs when the header of the root document
 changes

---
 src/disseminate/builders/xhtml2epub.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index 0cb7e81..b6c7db3 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -86,6 +86,10 @@ class XHtml2Epub(SequentialBuilder):
         parameters = self.parameters
         parameters += self.env.scanner.scan(parameters=parameters,
                                             raise_error=False)
+
+        # The content.opf uses entries in the header of the root document
+        if 'src_filepath' in self.context:
+            parameters.append(self.context['src_filepath'])
         return uniq(parameters) + [self.action]
 
     @property
-- 
2.43.0


From 201061585dfbaf486d69e2258a1189f2228954e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 44/60] fix: keep all rows and columns of csv data

Blank lines (like the one before the data), rows with fewer cells, equal
column names and data with a single row removed columns from tables.
---
 src/disseminate/tags/data.py | 44 ++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 804f6ed..3f918b0 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -45,6 +45,8 @@ class Data(Tag):
     data : Dict[Union[str, int], Tuple(str)]
         A data dict with the column names (str) or column index (int) as keys
         and the rows (tuple) as values.
+    column_names : Union[Tuple[Union[str, int]], None]
+        The names of all columns, if known.
     processed_headers : Union[List[:obj:`tags.Tag`], None]
         The headers processed into tags
     processed_rows : List[List[:obj:`tags.tag`]]
@@ -55,6 +57,7 @@ class Data(Tag):
     process_content = False
 
     data = None
+    column_names = None
     processed_headers = None
     processed_rows = None
 
@@ -107,7 +110,8 @@ class Data(Tag):
     @property
     def headers(self):
         """The tuple of the data headers"""
-        return tuple(self.data.keys())
+        return (self.column_names if self.column_names is not None else
+                tuple(self.data.keys()))
 
     @property
     def rows(self):
@@ -154,31 +158,31 @@ class DelimData(Data):
             # Load a file or string stream from the filepath_or_buffer
             stream = load_io_stream(filepath_or_buffer, context=self.context)
 
-            # Parse the csv data.
-            # first_row is an len(cols) list
-            # rows is a len(rows) list of len(cols) lists
+            # Parse the csv data without its blank lines.
+            # rows is a len(rows) list of lists with len(cols) items or less
             csv_reader = csv.reader(stream, delimiter=delimiter,
                                     skipinitialspace=self.skipinitialspace)
-            first_row = next(csv_reader)
-            rows = [row for row in csv_reader]
+            rows = [row for row in csv_reader
+                    if len(row) > 1 or ''.join(row).strip()]
 
-            # Transpose the rows so that rows is a len(cols) list of len(rows)
-            # lists
-            rows = transpose(rows)
-
-            # Convert the rows into a data dict with the keys as column names
-            # (header) or column numbers (no header)
-            data = OrderedDict()
+            # Fill rows with missing columns
+            num_cols = max(map(len, rows), default=0)
+            rows = [row + [''] * (num_cols - len(row)) for row in rows]
 
+            # The first row has the column names (header)
             if 'noheader' in self.attributes:
-                # Prepend the first row to each row
-                for col_num, (first, row) in enumerate(zip(first_row, rows)):
-                    row.insert(0, first)
-                    data[col_num] = tuple(row)
+                names = range(num_cols)
             else:
-                # Use the first_row as the column names
-                for first, row in zip(first_row, rows):
-                    data[first] = tuple(row)
+                names = rows.pop(0) if rows else ()
+
+            # Convert the rows into a data dict with the keys as column names
+            # (header) or column numbers (no header, or the name of another
+            # column)
+            data = OrderedDict()
+            for col_num, name in enumerate(names):
+                key = col_num if name in data else name
+                data[key] = tuple(row[col_num] for row in rows)
+            self.column_names = tuple(names)
 
             # Set the data attributes
             self.data = data
-- 
2.43.0


From 3203883727b29f36770ab59c39c39f3585aa7789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 45/60] fix: separate the columns of tsv tags at tabs

---
 src/disseminate/tags/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 3f918b0..3315e2c 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -147,13 +147,15 @@ class DelimData(Data):
     delimiter = None
     skipinitialspace = True
 
-    def __init__(self, delimiter=',', *args, **kwargs):
+    def __init__(self, delimiter=None, *args, **kwargs):
         self.delimiter = delimiter
         super().__init__(*args, **kwargs)
 
     def load(self, filepath_or_buffer, delimiter=None):
         if self.data is None:
             delimiter = delimiter if delimiter is not None else self.delimiter
+            if delimiter is None:
+                delimiter = '\t' if self.name.lower() == 'tsv' else ','
 
             # Load a file or string stream from the filepath_or_buffer
             stream = load_io_stream(filepath_or_buffer, context=self.context)
-- 
2.43.0


From 9ace37498a1a7f0b6ca67beebd5fa6e545c37fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 46/60] fix: number of rows of data tags

---
 src/disseminate/tags/data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 3315e2c..0c2eed4 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -131,12 +131,10 @@ class Data(Tag):
 
     @property
     def num_rows(self):
-        """The number of columns in the data"""
+        """The number of rows in the data"""
         if self.data is None:
             return None
-        first_key = self.data.keys()[0]
-        first_row = self.data[first_key]
-        return len(first_row)
+        return len(next(iter(self.data.values()), ()))
 
 
 class DelimData(Data):
-- 
2.43.0


From 741341915d68080d212859b7b24dc6d27a90bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:44 +0000
Subject: [PATCH 47/60] fix: only serve source pages for files in the current
 directory

---
 src/disseminate/server/handlers/pygmentize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/disseminate/server/handlers/pygmentize.py b/src/disseminate/server/handlers/pygmentize.py
index 3381b2a..51fa740 100644
--- a/src/disseminate/server/handlers/pygmentize.py
+++ b/src/disseminate/server/handlers/pygmentize.py
@@ -1,8 +1,10 @@
 """
 A handler to pygmentize a source page
 """
+import os
 from pathlib import Path
 
+from tornado.web import HTTPError
 from pygments import highlight
 from pygments.lexers import get_lexer_for_filename
 from pygments.formatters import HtmlFormatter
@@ -14,6 +16,12 @@ class PygmentizeHandler(ServerHandler):
     """A handler to pygmentize source files"""
 
     def get(self, path):
+        # Only serve files in the current directory, like the static files
+        root = os.path.abspath('.')
+        path = os.path.abspath(os.path.join(root, path))
+        if not path.startswith(os.path.join(root, '')):
+            raise HTTPError(403, "%s is not in the root directory", path)
+
         # Get the appropriate lexer
         lexer = get_lexer_for_filename(path, stripall=True)
 
-- 
2.43.0


From dd3ac34cb3388e5d98d1d04fd78f323bf1b1bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:44 +0000
Subject: [PATCH 48/60] fix: missing source pages are not found

---
 src/disseminate/server/handlers/pygmentize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disseminate/server/handlers/pygmentize.py b/src/disseminate/server/handlers/pygmentize.py
index 51fa740..256f715 100644
--- a/src/disseminate/server/handlers/pygmentize.py
+++ b/src/disseminate/server/handlers/pygmentize.py
@@ -21,6 +21,8 @@ class PygmentizeHandler(ServerHandler):
         path = os.path.abspath(os.path.join(root, path))
         if not path.startswith(os.path.join(root, '')):
             raise HTTPError(403, "%s is not in the root directory", path)
+        if not os.path.isfile(path):
+            raise HTTPError(404)
 
         # Get the appropriate lexer
         lexer = get_lexer_for_filename(path, stripall=True)
-- 
2.43.0


From 2254008e3d8d9e688415b50df7cc3d6a0e62b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:43 +0000
Subject: [PATCH 49/60] fix: check the packages with the name of a dependency
 only

---
 src/disseminate/checkers/python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/checkers/python.py b/src/disseminate/checkers/python.py
index fa8b461..b5628be 100644
--- a/src/disseminate/checkers/python.py
+++ b/src/disseminate/checkers/python.py
@@ -76,7 +76,8 @@ class PythonChecker(Checker):
             name = name.lower()
 
             # See if the package name is available in the freeze tuple
-            matching_packages = [i for i in self.freeze if i.startswith(name)]
+            matching_packages = [i for i in self.freeze
+                                 if i.split('==')[0] == name]
 
             # If there are no matching packages, return None and do nothing
             # more
-- 
2.43.0


From d7002b9859ba171df6f8078aa5a6b41522292317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:43 +0000
Subject: [PATCH 50/60] fix: read the numbers of versions like 1.0.post1

---
 src/disseminate/checkers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/checkers/utils.py b/src/disseminate/checkers/utils.py
index d8744a1..a27dd12 100644
--- a/src/disseminate/checkers/utils.py
+++ b/src/disseminate/checkers/utils.py
@@ -37,7 +37,7 @@ def name_and_version(string):
 
     m = re.search(r'([\w\.\-\_]+)'  # match package name
                   r'\s*(==|>=|<=|>|<|!=)?\s*'  # operator
-                  r'([\d\.]+)?',  # version number
+                  r'(\d+(?:\.\d+)*)?',  # version number
                   string)
 
     if m is None:
-- 
2.43.0


From 220b64b7949461f6054bc264c035ad5ff44b0d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:43 +0000
Subject: [PATCH 51/60] fix: compare versions of packages with different
 lengths

---
 src/disseminate/checkers/python.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/checkers/python.py b/src/disseminate/checkers/python.py
index b5628be..b889157 100644
--- a/src/disseminate/checkers/python.py
+++ b/src/disseminate/checkers/python.py
@@ -101,9 +101,14 @@ class PythonChecker(Checker):
                 # In this case, we don't care about the version--just that it's
                 # installed. It is, so mark it as installed
                 packages.available = True
-            elif installed_ver is not None and op(installed_ver, ver):
-                # Otherwise check the version number
-                packages.available = True
+            elif installed_ver is not None:
+                # Otherwise check the version number (1.0 and 1.0.0 are equal)
+                size = max(len(installed_ver), len(ver))
+                installed_ver += (0,) * (size - len(installed_ver))
+                ver += (0,) * (size - len(ver))
+
+                if op(installed_ver, ver):
+                    packages.available = True
 
         elif isinstance(packages, SoftwareDependencyList):
             # If the packages is a SoftwareDependencyList, process each package
-- 
2.43.0


From ba66a29da3ec183912eade927f649b8834c8fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:35 +0000
Subject: [PATCH 52/60] fix: example of strip_quotes

---
 src/disseminate/attributes/attributes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index b69272f..302c1d2 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -109,8 +109,8 @@ def strip_quotes(value):
     --------
     >>> strip_quotes('"my value"')
     'my value'
-    >>> strip_quotes('"the \'quoted\'"')
-    "the 'quoted'"
+    >>> strip_quotes('"it\\'s"')
+    "it's"
     >>> strip_quotes('value')
     'value'
     """
-- 
2.43.0


From 0987642c76c2e39fd06b77a5a57790af4f072d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:09 +0000
Subject: [PATCH 53/60] fix: widths of one third (33.3%) of images and panels

Widths are rounded up to 34%, which was not in any of the ranges of widths
---
 src/disseminate/tags/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/utils.py b/src/disseminate/tags/utils.py
index e742e5a..d54a448 100644
--- a/src/disseminate/tags/utils.py
+++ b/src/disseminate/tags/utils.py
@@ -238,7 +238,7 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
                74: (67, 75),
                65: (50, 67),
                49: (34, 50),
-               32: (25, 33),
+               32: (25, 34),
                24: (0, 25)}
 
     fit_percent_width = None
@@ -307,7 +307,7 @@ def xhtml_percentwidth(attributes, target='.html'):
                'w75': (67, 75),
                'w66': (50, 67),
                'w50': (34, 50),
-               'w33': (25, 33),
+               'w33': (25, 34),
                'w25': (0, 25)}
 
     for html_class, (range_min, range_max) in windows.items():
-- 
2.43.0


From 187344e57fb5969dc068cfb0be9e2b0d384d4906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:48 +0000
Subject: [PATCH 54/60] fix: use target-specific widths and classes of images
 and panels

A width (or class) for a target, like width.tex=50%, was not replaced by the
width for the target, and tex documents had a comment character instead of a
width.
---
 src/disseminate/tags/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/disseminate/tags/utils.py b/src/disseminate/tags/utils.py
index d54a448..9186114 100644
--- a/src/disseminate/tags/utils.py
+++ b/src/disseminate/tags/utils.py
@@ -230,6 +230,7 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
     width = attributes.get('width', target=target)
     if width is None:
         return attributes
+    key, _ = attributes.find_item('width', target=target)  # ex: 'width.tex'
 
     percent_width = percentage(width)  # width from 0 to 100
 
@@ -253,13 +254,13 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
         if use_positional:
             attributes[str] = StringPositionalValue
         else:
-            attributes['width'] = str
+            attributes[key] = str
     else:
         str = "{}".format(width)
         if use_positional:
             attributes[str] = StringPositionalValue
         else:
-            attributes['width'] = str
+            attributes[key] = str
 
     return attributes
 
@@ -312,9 +313,10 @@ def xhtml_percentwidth(attributes, target='.html'):
 
     for html_class, (range_min, range_max) in windows.items():
         if range_min < percent_width <= range_max:
-            cls_str = (attributes['class'] + ' ' + html_class
-                       if 'class' in attributes else html_class)
-            attributes['class'] = cls_str
+            # Use the class for this target, if there is one. ex: 'class.html'
+            key, _ = attributes.find_item('class', target=target,
+                                          default=('class', None))
+            attributes.append(key, html_class)
             return attributes
 
     return attributes
-- 
2.43.0


From 6b37b38f5233c013a599d52d21939c525ebc6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:52 +0000
Subject: [PATCH 55/60] fix: use attributes for html in html

Attributes for the html (or xhtml) target, like class.html, were not used when
tags are rendered in html.
---
 src/disseminate/tags/tag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/tags/tag.py b/src/disseminate/tags/tag.py
index f181fb4..3521f81 100644
--- a/src/disseminate/tags/tag.py
+++ b/src/disseminate/tags/tag.py
@@ -330,7 +330,8 @@ class Tag(object):
 
         # Format the html tag
         return xhtml_tag(name=name, level=level, attributes=attributes,
-                         formatted_content=content, method=method)
+                         formatted_content=content, target=method,
+                         method=method)
 
     @property
     def xhtml(self):
-- 
2.43.0


From e6aaf8423d03cb58618bdb65b20ec6fb55379e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:47 +0000
Subject: [PATCH 56/60] fix: read the output of commands while they run

---
 src/disseminate/builders/executor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/executor.py b/src/disseminate/builders/executor.py
index 4c0924d..6262847 100644
--- a/src/disseminate/builders/executor.py
+++ b/src/disseminate/builders/executor.py
@@ -19,8 +19,9 @@ def run(timeout, **kwargs):
     """Run the command with the given arguments."""
     popen = subprocess.Popen(**kwargs, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, bufsize=4096,)
-    popen.wait(timeout=timeout)
-    stdout, stderr = popen.communicate()
+    # Read the output while waiting: a process with much output would
+    # otherwise wait for its pipes forever
+    stdout, stderr = popen.communicate(timeout=timeout)
     return PopenResult(returncode=popen.returncode,
                        args=popen.args,
                        stdout=stdout.decode('latin1'),
-- 
2.43.0


From 6eb84789eaccccfe2180ba8f0ca3f65583089138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:36 +0000
Subject: [PATCH 57/60] fix: escape values in xhtml and opf templates

---
 src/disseminate/builders/jinja_render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index e2440fe..64fa79e 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -118,7 +118,8 @@ class JinjaRender(Builder):
             dl = jinja2.PackageLoader('disseminate', 'templates')
 
             # Create the environment
-            ae = jinja2.select_autoescape(['html', 'htm', 'xml'])
+            ae = jinja2.select_autoescape(['html', 'htm', 'xml', 'xhtml',
+                                           'opf'])
             env = jinja2.Environment(autoescape=ae, loader=dl,
                                      keep_trailing_newline=True,)
             env.filters['rewrite_path'] = rewrite_path
-- 
2.43.0


From 39c6e5cc3792e61df9ee014fc0adce316f2a4e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:11 +0000
Subject: [PATCH 58/60] fix: render documents which list several targets in the
 target entry

---
 src/disseminate/builders/jinja_render.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 64fa79e..a0e813e 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -268,13 +268,11 @@ class JinjaRender(Builder):
 
         logging.debug("Rendering '{}' with Jinja2 "
                       "'{}'".format(outfilepath, template))
-        if 'target' in context:
-            rendered_string = template.render(**context,
-                                              outfilepath=outfilepath)
-        else:
-            rendered_string = template.render(**context,
-                                              target=self.render_ext,
-                                              outfilepath=outfilepath)
+        # The 'target' of a context (a header) may list several targets: the
+        # one that is rendered is used
+        rendered_string = template.render(dict(context,
+                                               target=self.render_ext,
+                                               outfilepath=outfilepath))
 
         outfilepath.write_text(rendered_string)
         self.build_needed(reset=True)
-- 
2.43.0


From 5a5f27327508e7fd1d1c7e7bfa322ee60f32353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:38 +0000
Subject: [PATCH 59/60] fix: list the names of authors tags with their
 separators

---
 src/disseminate/tags/preamble.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/disseminate/tags/preamble.py b/src/disseminate/tags/preamble.py
index 1de8541..5d55e4d 100644
--- a/src/disseminate/tags/preamble.py
+++ b/src/disseminate/tags/preamble.py
@@ -3,6 +3,7 @@ Tags for document preambles.
 """
 from .tag import Tag
 from .headings import Title
+from .utils import format_content
 from ..formats import xhtml_tag
 from ..utils.string import str_to_list
 
@@ -25,19 +26,19 @@ class Authors(Tag):
                       context.get('authors', ''))
             self.content = author
 
-        # Convert the author string to a list
-        if isinstance(self.content, str):
-            self.content = str_to_list(self.content)
+        # Format the list of authors, unless it includes tags
+        self.content = self.author_string()
 
     def author_string(self):
         """Generate a formatted string listing the authors."""
-        # Convert to a list of strings
+        # Convert to a list of strings, without empty names
         if isinstance(self.content, str):
-            author_lst = str_to_list(self.content)
-        elif isinstance(self.content, list):
+            author_lst = list(filter(bool, str_to_list(self.content)))
+        elif (isinstance(self.content, list) and
+              all(isinstance(author, str) for author in self.content)):
             author_lst = self.content
         else:
-            return ''
+            return self.content
 
         # Convert to a list of authors
         if len(author_lst) == 0:
@@ -53,12 +54,12 @@ class Authors(Tag):
             else:
                 return ', '.join(others) + ', ' + ' and '.join(last_two)
 
-    def tex_fmt(self, *args, **kwargs):
-        return self.author_string()
-
-    def html_fmt(self, content=None, method='html', level=1, *args, **kwargs):
+    def html_fmt(self, content=None, format_func='html_fmt', method='html',
+                 level=1, *args, **kwargs):
+        content = format_content(content=self.content, format_func=format_func,
+                                 level=level + 1)
         return xhtml_tag('span', attributes='class=authors',
-                         formatted_content=self.author_string(),
+                         formatted_content=content,
                          method=method, level=level)
 
 
-- 
2.43.0


From dafc8de8664fef8b887ec25ecb1ff58c63577088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:00 +0000
Subject: [PATCH 60/60] fix: quote values with quotes and blanks in html
 attributes

---
 src/disseminate/attributes/attributes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 302c1d2..82c4064 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -129,6 +129,9 @@ re_attrs = regex.compile(r'((?P<key>[\w\.]+)'
                          r'|[^\s,\[\]]+|))')
 
 
+re_bare = regex.compile(r'[^\s,=\[\]"\']+')
+
+
 class Attributes(dict):
     """The attributes class is an ordered dict to manage and validate attribute
     entries.
@@ -528,9 +531,13 @@ class Attributes(dict):
         # d = self.filter(target='html')  # previously
         d = self
 
-        # Create an attribute string in html format
-        entries = ["{}='{}'".format(k, v) if not ispositional(v) else
-                   "{}".format(k)
+        # Create an attribute string in html format. Use the quotes that are
+        # not in the value
+        def quote(value):
+            return ('"{}"' if "'" in value else "'{}'").format(value)
+
+        entries = ["{}={}".format(k, quote(str(v))) if not ispositional(v) else
+                   k if re_bare.fullmatch(k) else quote(k)
                    for k, v in d.items()]
         return " ".join(entries)
 
-- 
2.43.0

