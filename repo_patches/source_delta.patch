From 20b6e58982a445b9743f042fd62016041f3a2f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 001/110] fix: parse XML LGRs without the optional meta element

---
 lgr/parser/xml_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 38d9ff6..7d0fead 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -142,6 +142,9 @@ class XMLParser(LGRParser):
                                   tag=META_TAG,
                                   **self.PARSER_OPTIONS)
         self._fast_iter(context)
+        if self._lgr is None:
+            # No "meta" element, use the default metadata
+            self._process_meta({})
         unicode_version = self._lgr.metadata.unicode_version
         self._lgr = None
 
@@ -494,7 +497,7 @@ class XMLParser(LGRParser):
         """
         metadata_added = False
         for _, elem in context:
-            if not metadata_added and elem == DATA_TAG:
+            if not metadata_added and elem.tag == DATA_TAG:
                 # The optional "meta" element is not present since it must
                 # preceed the required data element.
                 # However, we still have to call _process_meta
@@ -503,6 +506,7 @@ class XMLParser(LGRParser):
             if elem.tag == META_TAG:
                 logger.debug("Got 'meta' element")
                 self._process_meta(elem)
+                metadata_added = True
             elif elem.tag == DATA_TAG:
                 logger.debug("Got 'data' element")
                 self._process_data(elem)
-- 
2.43.0


From 5bdb3eb2849a25676878285a6a61bea391250273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 002/110] fix: an empty class in a rule matches no code point

---
 lgr/classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index f054701..9090ce0 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -34,9 +34,9 @@ def set_to_rvalue(cp_set, as_set):
         return cp_set
     else:
         if len(cp_set) == 0:
-            # Empty set, we have to return empty string
-            # because '[]' is an invalid REGEX
-            return ''
+            # Empty set: '[]' is an invalid REGEX, and the empty string would
+            # match anywhere, so use a pattern which never matches
+            return '(?!)'
         else:
             return text_type(cp_set)
 
-- 
2.43.0


From b934e09b367469420780a62d92f98fa1b5f5957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 003/110] fix: accept '%' in the classes of a parameterized
 context rule

---
 lgr/rule.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lgr/rule.py b/lgr/rule.py
index 12beed3..d422b0e 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -164,9 +164,10 @@ class Rule(object):
                 anchor = None
             else:
                 # Format anchor - Can be a sequence.
-                # Use old-style formatting, see note in matcher.AnchorMatcher
-                pattern = pattern % {'anchor': ''.join(map(lambda c: '\\x{{{:X}}}'.format(c),
-                                                           anchor))}
+                # Plain replacement: the rest of the pattern may contain '%'
+                pattern = pattern.replace('%(anchor)s',
+                                          ''.join(map(lambda c: '\\x{{{:X}}}'.format(c),
+                                                      anchor)))
         rule_logger.debug("Pattern for rule %s: '%s'", self, pattern)
         try:
             regex = unicode_database.compile_regex(pattern)
-- 
2.43.0


From ddef751e61beb4c754a3df2e4175bd45e44c55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 004/110] fix: accept a variant given as a code point or a list
 in del_variant and get_variant

---
 lgr/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 634826d..225589f 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -772,6 +772,9 @@ class LGR(object):
 
         cp_or_sequence = self._check_convert_cp(cp_or_sequence)
 
+        if isinstance(variant_cp, int):
+            variant_cp = [variant_cp]
+
         return self.repertoire.del_variant(cp_or_sequence, variant_cp,
                                            when, not_when)
 
@@ -829,7 +832,10 @@ class LGR(object):
                      cp_or_sequence, self)
 
         cp_or_sequence = self._check_convert_cp(cp_or_sequence)
-        return self.repertoire.get_variant(cp_or_sequence, var_cp)
+        if isinstance(var_cp, int):
+            var_cp = [var_cp]
+
+        return self.repertoire.get_variant(cp_or_sequence, tuple(var_cp))
 
     def get_char(self, cp_or_sequence):
         """
-- 
2.43.0


From 277c2d1887fddad35b18855025d67493b95f60e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 005/110] fix: remove the code points of a deleted range from
 the tag classes

---
 lgr/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 225589f..d152460 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -575,8 +575,14 @@ class LGR(object):
             logger.error('First code point of range is greater than last')
             raise LGRApiInvalidParameter('first_cp')
 
+        range_char = self.repertoire.get_char([first_cp])
+
         self.repertoire.del_range(first_cp, last_cp)
 
+        # Remove code points from tag classes
+        for cp in range(first_cp, last_cp + 1):
+            self._del_cp_from_tag_classes(cp, range_char.tags)
+
     def expand_ranges(self):
         """
         Expand all ranges to single code points.
-- 
2.43.0


From c868dfe7e35155107d69ef97f77500243b8705ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 006/110] fix: deleting or expanding a range of one code point
 raises NotInLGR

---
 lgr/char.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/char.py b/lgr/char.py
index ba94f83..cf15693 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -618,7 +618,7 @@ class Repertoire(object):
         ...
         NotInLGR:
         """
-        assert first_cp < last_cp, "range must be defined in order"
+        assert first_cp <= last_cp, "range must be defined in order"
 
         if (first_cp, last_cp) not in self.ranges:
             logger.error("Range '%s - %s' does not exist",
-- 
2.43.0


From 02476a05ad9d07ea67805952b08d21376f746a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 007/110] fix: show the code points of a literal sequence in
 their order

---
 lgr/matcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/matcher.py b/lgr/matcher.py
index 686355e..32470c3 100644
--- a/lgr/matcher.py
+++ b/lgr/matcher.py
@@ -7,7 +7,7 @@ from __future__ import unicode_literals
 import logging
 
 from lgr.exceptions import LGRFormatException
-from lgr.utils import format_cp_collapsed
+from lgr.utils import format_cp
 from lgr.core import PROTOCOL_LABEL_MAX_LENGTH
 
 logger = logging.getLogger(__name__)
@@ -370,9 +370,9 @@ class CharMatcher(CountMatcher):
     def __str__(self):
         count = CountMatcher.get_pattern(self)
         if len(count) > 1:
-            return '({}){}'.format(format_cp_collapsed(self.cp_or_sequence), count)
+            return '({}){}'.format(format_cp(self.cp_or_sequence), count)
 
-        return format_cp_collapsed(self.cp_or_sequence)
+        return format_cp(self.cp_or_sequence)
 
     def __repr__(self):
         count = super(CharMatcher, self).get_pattern()
-- 
2.43.0


From 18eb0c8a7b767034066215f965a6c91c720d258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 008/110] fix: collapse an empty list of code points and
 repeated code points

---
 lgr/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lgr/utils.py b/lgr/utils.py
index 4893154..5a03189 100644
--- a/lgr/utils.py
+++ b/lgr/utils.py
@@ -124,8 +124,10 @@ def collapse_codepoints(codepoints):
     True
     """
     result = []
-    # Sort list
-    codepoints = sorted(codepoints)
+    # Sort list, a repeated code point counts once
+    codepoints = sorted(set(codepoints))
+    if not codepoints:
+        return result
     first_cp = codepoints[0]
     last_cp = codepoints[0]
     for cp in codepoints[1:]:
-- 
2.43.0


From 89f15ce2edeac5542a9370a1069d7859b06fe4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 009/110] fix: keep the ranges consistent when deleting a code
 point of a range

---
 lgr/char.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index cf15693..c2da4a6 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -538,13 +538,10 @@ class Repertoire(object):
         ...
         NotInLGR:
         """
-        assert len(cp_or_sequence), "there should be at least one char"
-
-        char = CharBase.from_cp_or_sequence(cp_or_sequence)
-        if not self._del_char(char):
-            logger.error("Code point '%s' does not exist",
-                         format_cp(cp_or_sequence))
-            raise NotInLGR(cp_or_sequence)
+        char = self.get_char(cp_or_sequence)
+        self._del_char(char)
+        if isinstance(char, RangeChar):
+            self._split_range(char)
 
     def add_range(self, first_cp, last_cp,
                   comment=None, ref=None,
@@ -639,6 +636,31 @@ class Repertoire(object):
         # Remove and sort by first cp
         self.ranges.remove((first_cp, last_cp))
 
+    def _split_range(self, char):
+        """
+        Split the range of a deleted character in the ranges of what is left.
+
+        :param char: The RangeChar which has been deleted.
+        """
+        cp = char.cp[0]
+        self.ranges.remove((char.first_cp, char.last_cp))
+        for (first_cp, last_cp) in ((char.first_cp, cp - 1),
+                                    (cp + 1, char.last_cp)):
+            if first_cp < last_cp:
+                for c in range(first_cp, last_cp + 1):
+                    left = self.get_char([c])
+                    left.first_cp = first_cp
+                    left.last_cp = last_cp
+                self.ranges.append((first_cp, last_cp))
+            elif first_cp == last_cp:
+                # Single code point
+                left = self.get_char([first_cp])
+                self._del_char(left)
+                self.add_char([first_cp],
+                              comment=left.comment,
+                              ref=left.references, tag=left.tags,
+                              when=left.when, not_when=left.not_when)
+
     def get_char(self, cp_or_sequence):
         """
         Get the char object of a code point.
-- 
2.43.0


From 5031c6454430bcf2b11a9db8fdfb10d1642e11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 010/110] fix: delete every citation of a reference and every
 occurrence of a tag

---
 lgr/char.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index c2da4a6..3485fcb 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -842,11 +842,11 @@ class Repertoire(object):
         """
         for cp_list in self._chardict.values():
             for char in cp_list:
-                if ref_id in char.references:
-                    char.references.remove(ref_id)
+                char.references = [r for r in char.references
+                                   if text_type(r) != text_type(ref_id)]
                 for variant in char.get_variants():
-                    if ref_id in variant.references:
-                        variant.references.remove(ref_id)
+                    variant.references = [r for r in variant.references
+                                          if text_type(r) != text_type(ref_id)]
 
     def del_tag(self, tag_id):
         """
@@ -857,8 +857,7 @@ class Repertoire(object):
         """
         for cp_list in self._chardict.values():
             for char in cp_list:
-                if tag_id in char.tags:
-                    char.tags.remove(tag_id)
+                char.tags = [t for t in char.tags if t != tag_id]
 
     def get_chars_from_prefix(self, cp, only_variants=False):
         """
-- 
2.43.0


From 5373a80b0d9d449479016ce0d2b1c5238b162471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 011/110] fix: do not add the code points of a sequence to the
 tag classes

---
 lgr/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index d152460..9091838 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -2113,6 +2113,11 @@ class LGR(object):
         :param cp_or_sequence: Sequence of code point to add to the classes.
         :param tags: List of tags associated to the code points.
         """
+        if not isinstance(cp_or_sequence, int) and len(cp_or_sequence) > 1:
+            # A sequence has no tag (see RFC7940, section 5.5), it may only get
+            # here with "force": its code points are not tagged
+            return
+
         for tag in tags:
             tag_classname = TAG_CLASSNAME_PREFIX + tag
             self.classes_lookup.setdefault(tag_classname,
@@ -2130,6 +2135,9 @@ class LGR(object):
         :param cp_or_sequence: Sequence of code point to remove from the classes.
         :param tags: List of tags associated to the code points.
         """
+        if not isinstance(cp_or_sequence, int) and len(cp_or_sequence) > 1:
+            return
+
         for tag in tags:
             tag_classname = TAG_CLASSNAME_PREFIX + tag
             if tag_classname in self.classes_lookup:
-- 
2.43.0


From 833d10dafa51cf6e3d8ba64f800624ed05cdf4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 012/110] fix: refuse reference identifiers ending with a line
 feed

---
 lgr/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 2097fa2..1e1d637 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -348,7 +348,7 @@ class ReferenceManager(OrderedDict):
     so if no ref_id is given, generate one int-based id, converted to string.
     """
 
-    REFERENCE_REGEX = r'^[\-_.:0-9A-Z]*$'
+    REFERENCE_REGEX = r'[\-_.:0-9A-Z]*'
 
     def __init__(self, *args, **kwargs):
         super(ReferenceManager, self).__init__(*args, **kwargs)
@@ -411,7 +411,7 @@ class ReferenceManager(OrderedDict):
             if ref_id in self:
                 logger.error("Reference '%s' already exists", ref_id)
                 raise ReferenceAlreadyExists(ref_id)
-            if not re.match(self.REFERENCE_REGEX, str(ref_id)):
+            if not re.fullmatch(self.REFERENCE_REGEX, str(ref_id)):
                 logger.error("Invalid reference id '%s'", ref_id)
                 raise ReferenceInvalidId(ref_id)
         else:
-- 
2.43.0


From aa7caba101247ecfe25b73d3449f80680202e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 013/110] fix: rules keep using the tags and classes defined
 when they were first evaluated

---
 lgr/core.py    | 17 ++++++++++++++++-
 lgr/matcher.py | 10 ++++++++++
 lgr/rule.py    | 10 ++++++++++
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 9091838..68d803c 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -237,6 +237,7 @@ class LGR(object):
         """
         self.repertoire.del_tag(tag_id)
         self.classes_lookup.pop(TAG_CLASSNAME_PREFIX + tag_id, None)
+        self._clear_rules_cache()
 
     def add_cp(self, cp_or_sequence,
                comment=None, ref=None,
@@ -996,6 +997,8 @@ class LGR(object):
             if not force:
                 raise exc
 
+        if rule.name in self.rules_lookup:
+            self._clear_rules_cache()
         self.rules_lookup[rule.name] = rule
         self.rules.append(rule.name)
 
@@ -1027,10 +1030,11 @@ class LGR(object):
             logger.log(level, "Invalid rule '%s'", cls)
             if not force:
                 raise exc
+        if cls.name in self.classes_lookup:
+            self._clear_rules_cache()
         self.classes_lookup[cls.name] = cls
         self.classes.append(cls.name)
 
-
     # TODO get rid of generate_chars and always return them
     def test_label_eligible(self, label, is_variant=False, collect_log=True, generate_chars=False):
         """
@@ -2124,6 +2128,8 @@ class LGR(object):
                                            Class(name=tag,
                                                  comment="Virtual class for tag %s" % tag,
                                                  implicit=True)).add_codepoint(cp_or_sequence)
+        if tags:
+            self._clear_rules_cache()
 
     def _del_cp_from_tag_classes(self, cp_or_sequence, tags):
         """
@@ -2142,6 +2148,15 @@ class LGR(object):
             tag_classname = TAG_CLASSNAME_PREFIX + tag
             if tag_classname in self.classes_lookup:
                 self.classes_lookup[tag_classname].del_codepoint(cp_or_sequence)
+        if tags:
+            self._clear_rules_cache()
+
+    def _clear_rules_cache(self):
+        """
+        Forget the patterns of the rules: what they rely on (tags, classes or other rules) has changed.
+        """
+        for rule in self.rules_lookup.values():
+            rule.clear_pattern_cache()
 
     def __unicode__(self):
         return self.name
diff --git a/lgr/matcher.py b/lgr/matcher.py
index 32470c3..eb57b38 100644
--- a/lgr/matcher.py
+++ b/lgr/matcher.py
@@ -58,6 +58,13 @@ class Matcher(object):
         """
         return iter([])
 
+    def clear_pattern_cache(self):
+        """
+        Forget the patterns computed by the rules this matcher contains.
+        """
+        for child in self.iter_children():
+            child.clear_pattern_cache()
+
     def __repr__(self):
         return '<Matcher>'
 
@@ -426,6 +433,9 @@ class RuleMatcher(CountMatcher):
         """
         return self._rule.iter_children()
 
+    def clear_pattern_cache(self):
+        self._rule.clear_pattern_cache()
+
     def can_add_child(self):
         return self._rule.can_add_child()
 
diff --git a/lgr/rule.py b/lgr/rule.py
index d422b0e..aa1ff0c 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -101,6 +101,16 @@ class Rule(object):
         self._pattern_cache[cache_key] = pattern_io.getvalue()
         return pattern_io.getvalue()
     
+    def clear_pattern_cache(self):
+        """
+        Forget the patterns computed so far, for this rule and the ones it contains.
+
+        To be called when one of the elements the rule relies on has changed.
+        """
+        self._pattern_cache = {}
+        for child in self.children:
+            child.clear_pattern_cache()
+
     def precalculate_patterns(self, rules_lookup, classes_lookup, unicode_database):
         """
         Precalculate patterns for this rule and all its children.
-- 
2.43.0


From a28884d6338b2c61babcea3da8080c1e9561a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 014/110] fix: overriding the checks on a range does not insert
 code points already present

---
 lgr/core.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 68d803c..c5c006d 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -474,9 +474,7 @@ class LGR(object):
                                        validating_repertoire)
         codepoints = []
         for (cp, status) in check_range:
-            if status is None:
-                codepoints.append(cp)
-            elif isinstance(status, NotInRepertoire):
+            if isinstance(status, NotInRepertoire):
                 logger.warning("CP '%s' is not in repertoire %s",
                                format_cp(cp), validating_repertoire)
                 if not override_repertoire and not force:
@@ -485,13 +483,23 @@ class LGR(object):
                     logger.warning("Overriding repertoire '%s' "
                                    "for code point '%s'",
                                    validating_repertoire, format_cp(cp))
-                    codepoints.append(cp)
+                    status = None
             elif isinstance(status, CharInvalidIdnaProperty):
                 logger.error("CP '%s' is not IDNA valid", format_cp(cp))
                 if not self.raise_on_invalid_property:
-                    codepoints.append(cp)
+                    status = None
                 elif not force:
                     raise status
+
+            if status is None and cp in self.repertoire:
+                # The code point has been accepted but is already there
+                status = CharAlreadyExists(cp)
+
+            if status is None:
+                codepoints.append(cp)
+            elif isinstance(status, CharInvalidIdnaProperty):
+                # Ignored
+                continue
             elif isinstance(status, CharAlreadyExists):
                 logger.error("CP '%s' is already present in repertoire",
                              format_cp(cp))
-- 
2.43.0


From fe2c9c5aafe3c8f87da3c5f0a0045b0fae0fa203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 015/110] fix: serialize descriptions containing the end mark
 of a CDATA section

---
 lgr/parser/xml_serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/xml_serializer.py b/lgr/parser/xml_serializer.py
index 70c08ae..822dacd 100644
--- a/lgr/parser/xml_serializer.py
+++ b/lgr/parser/xml_serializer.py
@@ -100,8 +100,8 @@ def _serialize_meta(lgr, meta):
             node.attrib['type'] = metadata.description.description_type
 
         content = metadata.description.value
-        if metadata.description.description_type not in [None, 'text/plain']:
-            # Wrap content in CDATA section
+        if metadata.description.description_type not in [None, 'text/plain'] and ']]>' not in content:
+            # Wrap content in CDATA section, unless it contains the end mark of such a section
             content = etree.CDATA(content)
         node.text = content
 
-- 
2.43.0


From c9412789b9e08f063b09495ec24e9308f649c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 016/110] fix: ignore processing instructions in XML LGRs

---
 lgr/parser/xml_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 7d0fead..0ed7190 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -101,10 +101,11 @@ class XMLParser(LGRParser):
     # Keep content intact, so do not strip CDATA section
     # (used in the <meta>/<description> element).
     # Do not resolve entities.
-    # Skip comment, as we do not care.
+    # Skip comments and processing instructions, as we do not care.
     PARSER_OPTIONS = {'resolve_entities': False,
                       'strip_cdata': False,
-                      'remove_comments': True}
+                      'remove_comments': True,
+                      'remove_pis': True}
 
     def __init__(self, *args, **kwargs):
         super(XMLParser, self).__init__(*args, **kwargs)
-- 
2.43.0


From f940c72b2588cf052b753f69a3f851f5d3a6489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 017/110] fix: ignore entity references in XML LGRs

---
 lgr/parser/xml_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 0ed7190..9259d7e 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -498,6 +498,9 @@ class XMLParser(LGRParser):
         """
         metadata_added = False
         for _, elem in context:
+            if elem.tag in (META_TAG, DATA_TAG, RULES_TAG):
+                # Entities are not resolved, so there is nothing to read in them
+                etree.strip_elements(elem, etree.Entity, with_tail=False)
             if not metadata_added and elem.tag == DATA_TAG:
                 # The optional "meta" element is not present since it must
                 # preceed the required data element.
-- 
2.43.0


From 903a5fab3b01d99da2c99731032d0da5caca29e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 018/110] fix: parse XML LGRs with empty metadata elements

---
 lgr/parser/xml_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 9259d7e..08ccb8a 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -191,21 +191,21 @@ class XMLParser(LGRParser):
             tag = child.tag
             logger.debug("Got '%s' element", tag)
             if tag in MAPPER:
-                MAPPER[tag](child.text)
+                MAPPER[tag](child.text or '')
                 if tag == UNICODE_VERSION_TAG:
                     unicode_version_tag_found = True
             elif tag == VERSION_TAG:
                 metadata.version = Version(child.text,
                                            child.get('comment', None))
             elif tag == LANGUAGE_TAG:
-                metadata.add_language(child.text, force=self.force)
+                metadata.add_language(child.text or '', force=self.force)
             elif tag == SCOPE_TAG:
                 metadata.scopes.append(
                     Scope(child.text, child.get('type', None)))
             elif tag == DESCRIPTION_TAG:
                 # Seems to be an issue with CDATA/iterparse: https://bugs.launchpad.net/lxml/+bug/1788449
                 # For now, manually replace CRLF with LF
-                metadata.description = Description(child.text.replace('\r\n', '\n'),
+                metadata.description = Description((child.text or '').replace('\r\n', '\n'),
                                                    child.get('type', None))
             elif tag == REFERENCES_TAG:
                 for reference in child:
-- 
2.43.0


From b9e6d6c654310fd84e305376b10660fdea148620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 019/110] fix: read space-separated lists whatever the white
 space in them

---
 lgr/parser/xml_parser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 08ccb8a..b1171d6 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -567,12 +567,7 @@ def string_to_list(string):
     >>> string_to_list("one two") == ["one", "two"]
     True
     """
-    # This is because(''.split('') -> [''])
-    result = []
-    if len(string) > 0:
-        result = string.split(' ')
-
-    return result
+    return string.split()
 
 
 def drop_ns(node):
-- 
2.43.0


From c9532396356a83eb0b6cada0e690337f19f72b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 020/110] fix: report the invalid rules of XML LGRs the same
 way with and without Unicode database

---
 lgr/classes.py           |  4 ++--
 lgr/parser/xml_parser.py | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index 9090ce0..17dec44 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -161,7 +161,7 @@ class Class(object):
                                                                    is_look_behind,
                                                                    as_set)
         elif self.unicode_property is not None:
-            (name, value) = self.unicode_property.split(':')
+            (name, _, value) = self.unicode_property.partition(':')
             cp_set = unicode_database.get_set(pattern='\p{%s=%s}' % (name, value))
         else:
             cp_set = unicode_database.get_set(self.codepoints)
@@ -211,7 +211,7 @@ class Class(object):
             return '[:class tag={}:]'.format(self.from_tag)
 
         if self.unicode_property is not None:
-            name, value = self.unicode_property.split(':')
+            name, _, value = self.unicode_property.partition(':')
             return '[:class property:{}={}:]'.format(name, value)
 
         return format_cp_collapsed(self.codepoints)
diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index b1171d6..dce6258 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -11,7 +11,9 @@ Note:
 """
 
 import logging
+import re
 from lxml import etree
+from picu.exceptions import PICUException
 
 from lgr import text_type
 from lgr.core import LGR
@@ -373,8 +375,12 @@ class XMLParser(LGRParser):
             self._parse_rule_helper(child, rule)
         
         if self._unicode_database:
-            rule.precalculate_patterns(self._lgr.rules_lookup, self._lgr.classes_lookup,
-                                    self._unicode_database)
+            try:
+                rule.precalculate_patterns(self._lgr.rules_lookup, self._lgr.classes_lookup,
+                                           self._unicode_database)
+            except (LGRException, PICUException, re.error) as exc:
+                # Not a reason to stop here: the validation of the rule or its use will tell
+                logger.warning("Cannot compute pattern of rule '%s': %s", rule.name, exc)
 
         return rule
 
-- 
2.43.0


From 379260ac122ce6c644fe800f1fc21b741fdfd320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 021/110] fix: skip invalid references of XML LGRs when parsing
 is forced

---
 lgr/parser/xml_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index dce6258..5d255a0 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -215,9 +215,15 @@ class XMLParser(LGRParser):
                     # Don't convert it to an int since ref_id may be a string
                     ref_id = reference.get('id')
                     comment = reference.get('comment', None)
-                    reference_manager.add_reference(value,
-                                                    comment=comment,
-                                                    ref_id=ref_id)
+                    try:
+                        reference_manager.add_reference(value,
+                                                        comment=comment,
+                                                        ref_id=ref_id)
+                    except LGRException as exc:
+                        logger.error("Cannot add reference '%s': %s", ref_id, exc)
+                        self.rfc7940_checks.error('parse_xml')
+                        if not self.force:
+                            raise
                 # Since we have processed <reference> elements here, let's clean-up
                 child.clear()
             else:
-- 
2.43.0


From a6c7043984cbdf8f0253f78e7c3323d10e03db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 022/110] fix: ignore the variants of an invalid character in
 RFC 3743 and RFC 4290 tables

---
 lgr/parser/rfc3743_parser.py | 1 +
 lgr/parser/rfc4290_parser.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index d295f09..df2d25c 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -100,6 +100,7 @@ class RFC3743Parser(LGRParser):
                 self._lgr.add_cp(codepoints, ref=references, force=self.force)
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char, line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index b2a1fc5..6da34db 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -61,6 +61,7 @@ class RFC4290Parser(LGRParser):
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char,
                              line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
-- 
2.43.0


From cc21218a0d08b63db54ffa115d4dcc64529f0662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 023/110] fix: accept spaces around the separators of RFC 3743
 and RFC 4290 tables

---
 lgr/parser/rfc3743_parser.py | 2 +-
 lgr/parser/rfc4290_parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index df2d25c..2ee785b 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -169,7 +169,7 @@ def parse_char(char):
     """
     codepoints = []
     for match in UNICODE_CODEPOINT_RE.finditer(char):
-        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split(' ')]
+        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
         references = match.group('references')
 
         ref_list = []
diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index 6da34db..59797e3 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -100,7 +100,7 @@ def parse_char(char):
     codepoints = []
     chars = char.split('-')
     for c in chars:
-        codepoint_re = UNICODE_CODEPOINT_RE.match(c)
+        codepoint_re = UNICODE_CODEPOINT_RE.match(c.strip())
         if codepoint_re is not None:
             codepoints.append(int(codepoint_re.group(1), 16))
         else:
-- 
2.43.0


From fd9f9a26674b3e38213205102dbe169eb99fdb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 024/110] fix: read reference and version numbers of several
 digits in RFC 3743 tables

---
 lgr/parser/rfc3743_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index 2ee785b..fdfa89a 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -15,13 +15,13 @@ from lgr.utils import format_cp
 
 logger = logging.getLogger(__name__)
 
-REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
-VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
+REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d+)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
+VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d+)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
 
 # RFC3743 defines a code point without the "U+" notation,
 # however some files use the "U+" prefix.
 # Try to support both.
-UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d(,\d)*)\))?')
+UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d+(,\d+)*)\))?')
 
 
 class RFC3743Parser(LGRParser):
-- 
2.43.0


From 57b73e1b3519f752c7a991d710b7146197d98bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 025/110] fix: store the date and references of RFC 3743 tables
 in the form an LGR expects

---
 lgr/parser/rfc3743_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index fdfa89a..55d228e 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -59,7 +59,7 @@ class RFC3743Parser(LGRParser):
             reference = REFERENCE_RE.match(line)
             if reference is not None:
                 ref_id = reference.group('ref_id')
-                value = reference.group('value')
+                value = reference.group('value').strip()
                 comment = reference.group('comment')
                 try:
                     self._lgr.add_reference(value, ref_id=ref_id,
@@ -78,7 +78,7 @@ class RFC3743Parser(LGRParser):
                 try:
                     self._lgr.metadata.version = Version(version_no,
                                                          comment=comment)
-                    self._lgr.metadata.date = date
+                    self._lgr.metadata.set_date('-'.join((date[:4], date[4:6], date[6:])))
                 except LGRException:
                     logger.error("Invalid version '%s' on line %d",
                                  line, line_num)
-- 
2.43.0


From 62b1cf5d4cf8443d38c3daad3b171364f63680e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 026/110] fix: do not take the beginning of a word or of a
 longer number for a code point in text tables

---
 lgr/parser/line_parser.py    | 2 +-
 lgr/parser/rfc3743_parser.py | 2 +-
 lgr/parser/rfc4290_parser.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/parser/line_parser.py b/lgr/parser/line_parser.py
index cf4f15a..aeba784 100644
--- a/lgr/parser/line_parser.py
+++ b/lgr/parser/line_parser.py
@@ -14,7 +14,7 @@ from lgr.parser.parser import LGRParser
 
 logger = logging.getLogger(__name__)
 
-UNICODE_CODEPOINT_RE = re.compile(r'U\+([0-9a-fA-F]{4,6})')
+UNICODE_CODEPOINT_RE = re.compile(r'U\+([0-9a-fA-F]{4,6})\b')
 
 
 class LineParser(LGRParser):
diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index 55d228e..e9b8ad2 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -21,7 +21,7 @@ VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d+)\s+(?P<date>\d{8})\s*(?:#
 # RFC3743 defines a code point without the "U+" notation,
 # however some files use the "U+" prefix.
 # Try to support both.
-UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d+(,\d+)*)\))?')
+UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6})\b ?)+)(\((?P<references>\d+(,\d+)*)\))?')
 
 
 class RFC3743Parser(LGRParser):
diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index 59797e3..9d52051 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -14,7 +14,7 @@ from lgr.utils import format_cp
 
 logger = logging.getLogger(__name__)
 
-UNICODE_CODEPOINT_RE = re.compile(r'U\+([0-9a-fA-F]{4,6})')
+UNICODE_CODEPOINT_RE = re.compile(r'U\+([0-9a-fA-F]{4,6})\b')
 
 
 class RFC4290Parser(LGRParser):
-- 
2.43.0


From d3d436129de5c6822dc00099ebfd24396031ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 027/110] fix: ignore the comment at the end of a line in one
 code point per line tables

---
 lgr/parser/line_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lgr/parser/line_parser.py b/lgr/parser/line_parser.py
index aeba784..a114ee4 100644
--- a/lgr/parser/line_parser.py
+++ b/lgr/parser/line_parser.py
@@ -43,6 +43,9 @@ class LineParser(LGRParser):
             if line[0] == '#':
                 continue
 
+            # Remove comments
+            line = line.split('#')[0]
+
             codepoints = []
             for cp in UNICODE_CODEPOINT_RE.finditer(line):
                 try:
-- 
2.43.0


From d4692c3de79f40e3da6a34aa2663b9c2a5b3d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 028/110] fix: recognize the same line separators in text
 tables given as bytes

---
 lgr/parser/heuristic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/heuristic_parser.py b/lgr/parser/heuristic_parser.py
index d8401e9..12c144c 100644
--- a/lgr/parser/heuristic_parser.py
+++ b/lgr/parser/heuristic_parser.py
@@ -67,7 +67,7 @@ class HeuristicParser(LGRParser):
             if not is_str:
                 if hasattr(rule_file, "seek"):
                     rule_file.seek(0)
-                return io.StringIO(rule_file.read().decode('utf-8'))
+                return io.StringIO(rule_file.read().decode('utf-8'), newline=None)
             if hasattr(self.source, "seek"):
                 self.source.seek(0)
             return self.source
-- 
2.43.0


From f8a832f3133586abbbb3278168fb0c4b076a47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 029/110] fix: the heuristic parser passes the Unicode database
 on to the parser it selects

---
 lgr/parser/heuristic_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/parser/heuristic_parser.py b/lgr/parser/heuristic_parser.py
index 12c144c..8ba4c09 100644
--- a/lgr/parser/heuristic_parser.py
+++ b/lgr/parser/heuristic_parser.py
@@ -58,6 +58,8 @@ class HeuristicParser(LGRParser):
             # default to LGR XML parser
             self.lgr_parser = XMLParser(self.source, **self.kwargs)
 
+        self.lgr_parser.unicode_database = self._unicode_database
+
         if hasattr(rule_file, "seek"):
             rule_file.seek(0)
 
-- 
2.43.0


From 62450345ec0155be122df5a097325f1478e399f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 030/110] fix: the heuristic parser gives the Unicode version
 before the document is validated

---
 lgr/parser/heuristic_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/heuristic_parser.py b/lgr/parser/heuristic_parser.py
index 8ba4c09..687f7e1 100644
--- a/lgr/parser/heuristic_parser.py
+++ b/lgr/parser/heuristic_parser.py
@@ -27,17 +27,20 @@ class HeuristicParser(LGRParser):
         self.lgr_parser = None
 
     def unicode_version(self):
+        self._open_and_find_parser()
         return self.lgr_parser.unicode_version()
 
     def validate_document(self, schema=None):
+        self._open_and_find_parser()
+        return self.lgr_parser.validate_document(schema)
+
+    def _open_and_find_parser(self):
         if hasattr(self.source, "read"):
             self._find_parser(self.source)
         else:
             with io.open(self.source, 'r', encoding='utf-8') as rule_file:
                 self._find_parser(rule_file)
 
-        return self.lgr_parser.validate_document(schema)
-
     def _find_parser(self, rule_file):
         if self.lgr_parser:
             return
-- 
2.43.0


From 29dd618f67d063b8f8d993d95290ed875f9070fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 031/110] fix: an XML LGR given as a stream can be parsed after
 its validation

---
 lgr/parser/xml_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 5d255a0..01876fc 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -134,6 +134,11 @@ class XMLParser(LGRParser):
                 # Bug in LXML, see https://bugs.launchpad.net/lxml/+bug/1526522
                 error_log = "CANNOT VALIDATE XML"
 
+        # FD is now potentially at the end of the documents,
+        # set it back to start
+        if hasattr(self.source, "seek"):
+            self.source.seek(0)
+
         self.rfc7940_checks.tested('schema')
         return error_log
 
-- 
2.43.0


From 590f348d5a9beffd348b67299a6a766b9eb6f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 032/110] fix: generate the variants from all the partitions of
 a label

---
 lgr/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index c5c006d..44fd1d6 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1708,8 +1708,7 @@ class LGR(object):
         :return: list of valid prefix characters.
         """
         prefix_list = []
-        for prefix in self.repertoire.get_chars_from_prefix(label[0],
-                                                            only_variants=True):
+        for prefix in self.repertoire.get_chars_from_prefix(label[0]):
             # Ensure prefix is valid for label
             if not prefix.is_prefix_of(label):
                 continue
@@ -1801,7 +1800,7 @@ class LGR(object):
             same_prefix = []
         else:
             if len(same_prefix) == 0:
-                # No code point in LGR with variants,
+                # No code point in LGR with a valid context,
                 # stick to first one found (longest in label)
                 for cp in self.repertoire.get_chars_from_prefix(label[0]):
                     if cp.is_prefix_of(label):
@@ -1811,7 +1810,7 @@ class LGR(object):
         for char in [ch for ch in same_prefix if isinstance(ch, CharSequence)]:
             # char is a sequence, if first code point of the sequence is in the LGR we need to consider it
             for cp in self.repertoire.get_chars_from_prefix(label[0]):
-                if len(cp) < len(char) and cp.is_prefix_of(label):
+                if len(cp) < len(char) and cp.is_prefix_of(label) and not any(cp is ch for ch in same_prefix):
                     same_prefix.append(cp)
 
         # Iterate through characters matching the start of the label
-- 
2.43.0


From 8db362cf44359a32566fc41f50a54271166beac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 033/110] fix: estimate the number of variants over all the
 partitions of a label

---
 lgr/core.py | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 44fd1d6..ea48fa8 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1278,9 +1278,6 @@ class LGR(object):
         :param hide_mixed_script_variants: Whether we count mixed scripts variants.
         :return: Estimated number of generated variants.
         """
-        (_, _, _, chars) = self._test_preliminary_eligibility(label, generate_chars=True)
-        variant_number = 1
-
         def vars_excl_reflexive(current_char):
             return [v for v in current_char.get_variants() if v.cp != current_char.cp]
 
@@ -1289,22 +1286,41 @@ class LGR(object):
                 mixed_script_filter = MixedScriptsVariantFilter(label, self.repertoire, unidb=self._unicode_database)
             except NotInLGR:
                 return 0
-            for char in chars:
-                variant_number *= len(
-                    [v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_base_scripts(v.cp)]
-                ) + 1  # Take into account original code point
+            variant_number = self._count_permutations(label, lambda char: len(
+                [v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_base_scripts(v.cp)]
+            ) + 1)  # Take into account original code point
             for script in mixed_script_filter.other_scripts:
-                other_script_number = 1
-                for char in chars:
-                    other_script_number *= len(
-                        [v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_scripts(v.cp, {script})]
-                    )
-                variant_number += other_script_number
+                variant_number += self._count_permutations(label, lambda char: len(
+                    [v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_scripts(v.cp, {script})]
+                ))
         else:
-            for char in chars:
-                variant_number *= len(vars_excl_reflexive(char)) + 1  # Take into account original code point
+            variant_number = self._count_permutations(label, lambda char: len(vars_excl_reflexive(char)) + 1)
         return variant_number
 
+    def _count_permutations(self, label, char_permutations):
+        """
+        Count the permutations of a label, over all its partitions into characters of the LGR.
+
+        :param label: The label, as a sequence of code points.
+        :param char_permutations: Function giving the number of permutations of a character.
+        :return: The number of permutations.
+        """
+        valid, _, _ = self._test_preliminary_eligibility(label)
+        # Number of permutations of each suffix of the label, the longest one being last
+        suffixes = [1]
+        for i in reversed(range(len(label))):
+            try:
+                char_list = [char for char in self.repertoire.get_chars_from_prefix(label[i])
+                             if char.is_prefix_of(label[i:])]
+            except NotInLGR:
+                char_list = []
+            if char_list:
+                suffixes.append(sum(char_permutations(char) * suffixes[-len(char)] for char in char_list))
+            else:
+                # If label is not in the LGR, ignore its code points that are not
+                suffixes.append(0 if valid else suffixes[-1])
+        return suffixes[-1]
+
     def generate_index_label(self, label, max_recursion=0):
         """
         Generate the "index label" of a given label.
-- 
2.43.0


From 77a54f660ed6b080c113f4afee6a6fe010e0728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 034/110] fix: hiding mixed-script variants keeps those with
 common characters or sequences

---
 lgr/core.py                         | 13 +++--
 lgr/mixed_scripts_variant_filter.py | 80 ++++++++++++++++++-----------
 2 files changed, 56 insertions(+), 37 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index ea48fa8..4343dd9 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1291,7 +1291,8 @@ class LGR(object):
             ) + 1)  # Take into account original code point
             for script in mixed_script_filter.other_scripts:
                 variant_number += self._count_permutations(label, lambda char: len(
-                    [v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_scripts(v.cp, {script})]
+                    [cp for cp in [char.cp] + [v.cp for v in vars_excl_reflexive(char)]
+                     if mixed_script_filter.cp_in_scripts(cp, {script})]
                 ))
         else:
             variant_number = self._count_permutations(label, lambda char: len(vars_excl_reflexive(char)) + 1)
@@ -1789,9 +1790,7 @@ class LGR(object):
 
         # current `label` will be consumed by recursion,
         # so need to save the original.
-        first_call = False
         if orig_label is None:
-            first_call = True
             orig_label = label
         if label_prefix is None:
             label_prefix = tuple()
@@ -1850,10 +1849,10 @@ class LGR(object):
                 variant_label = label_prefix + var.cp + tuple(label[len(char):])
 
                 if hide_mixed_script_variants:
-                    if first_call and mixed_script_filter.cp_in_other_scripts(var.cp):
-                        rule_logger.debug("Variant script is eligible for non mixed-scripts", format_cp(var.cp))
+                    if mixed_script_filter.cp_in_other_scripts(var.cp, label_prefix):
+                        rule_logger.debug("Variant %s script is eligible for non mixed-scripts", format_cp(var.cp))
                         script_filter = mixed_script_filter.get_filter_for_other_script(
-                            self.unicode_database.get_script(var.cp[0]))
+                            mixed_script_filter.get_first_script(var.cp))
                     elif not mixed_script_filter.cp_in_base_scripts(var.cp):
                         rule_logger.debug("Variant %s contains mixed-scripts", format_cp(var.cp))
                         continue
@@ -1884,7 +1883,7 @@ class LGR(object):
             # is applied to any of the permuted labels containing
             # the original code point.
             # Also ignore char that are not part of the label in the current script if required
-            if not has_reflexive_mapping and (not hide_mixed_script_variants or first_call or
+            if not has_reflexive_mapping and (not hide_mixed_script_variants or
                                               mixed_script_filter.cp_in_base_scripts(char.cp)):
                 char_perms.insert(0, (char, frozenset(), False, mixed_script_filter))
 
diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index c6a2ed2..9462408 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -28,6 +28,8 @@ def get_permitted_scripts(base_scripts: Set[str]):
 
 
 class BaseMixedScriptsVariantFilter:
+    IGNORED_SCRIPTS = {'Common', 'Inherited'}
+
     def __init__(self, unidb: UnicodeDatabase) -> None:
         super().__init__()
         self.unidb = unidb
@@ -36,27 +38,47 @@ class BaseMixedScriptsVariantFilter:
     def cp_in_scripts(self, cp: Tuple[ord], scripts) -> bool:
         for char in cp:
             script = self.unidb.get_script(char)
-            if script not in scripts:
+            if script not in scripts and script not in self.IGNORED_SCRIPTS:
                 return False
         return True
 
+    def get_first_script(self, cp: Tuple[ord]):
+        """
+        Get the script of the first code point that has one.
+
+        :param cp: The code points
+        :return: The script, None if all code points are used with any script.
+        """
+        for char in cp:
+            script = self.unidb.get_script(char)
+            if script not in self.IGNORED_SCRIPTS:
+                return script
+        return None
+
     def cp_in_base_scripts(self, cp: Tuple[ord]) -> bool:
         return self.cp_in_scripts(cp, self.base_scripts)
 
-    def cp_in_other_scripts(self, cp: Tuple[ord]) -> bool:
+    def cp_in_other_scripts(self, cp: Tuple[ord], label_prefix: Tuple[ord] = ()) -> bool:
         return False
 
 
 class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
-    IGNORED_SCRIPTS = {'Common', 'Inherited'}
 
     def __init__(self, label: Tuple[int], repertoire: Repertoire, unidb: UnicodeDatabase) -> None:
         super().__init__(unidb)
         self.base_scripts: Set[str] = self._get_base_scripts(label)
         self.other_scripts: Set[str] = self._get_scripts_for_variants(label, repertoire)
 
-    def cp_in_other_scripts(self, cp: Tuple[ord]) -> bool:
-        return self.cp_in_scripts(cp, self.other_scripts)
+    def cp_in_other_scripts(self, cp: Tuple[ord], label_prefix: Tuple[ord] = ()) -> bool:
+        """
+        Check whether code points start a variant label in another script than the one of the label.
+
+        :param cp: The code points
+        :param label_prefix: The code points before cp in variant label
+        :return: True if cp is in the other scripts and label_prefix can be used with any script.
+        """
+        return self.get_first_script(label_prefix) is None and self.get_first_script(cp) is not None and \
+            self.cp_in_scripts(cp, self.other_scripts)
 
     def _get_base_scripts(self, label: Tuple[int]) -> Set[str]:
         scripts = set()
@@ -79,32 +101,30 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
         :param repertoire: The LGR repertoire
         :return: A set of scripts to keep for computation when filtering cross-script variants.
         """
-        scripts = None
-        current_label = label
-
-        for c in label:
-            scripts_for_char = set()
+        # Characters of the LGR at each position in label, label may have several partitions because of sequences
+        char_lists = []
+        scripts = set()
+        for i, c in enumerate(label):
             try:
-                chars_from_prefix = repertoire.get_chars_from_prefix(c, only_variants=True)
+                char_lists.append([char for char in repertoire.get_chars_from_prefix(c)
+                                   if char.is_prefix_of(label[i:])])
             except NotInLGR:
                 # may be a code point from a sequence
-                continue
-            for char in chars_from_prefix:
-                # Ensure prefix is valid for label
-                if not char.is_prefix_of(current_label):
-                    continue
-
+                char_lists.append([])
+            for char in char_lists[-1]:
                 for v in char.get_variants():
-                    for cp in v.cp:
-                        scripts_for_char.add(self.unidb.get_script(cp))
-
-            scripts_for_char -= self.IGNORED_SCRIPTS
-            if scripts is None:
-                scripts = set(scripts_for_char)
-            else:
-                scripts.intersection_update(scripts_for_char)
-            current_label = current_label[1:]
-
-        if scripts is None:
-            return set()
-        return scripts - self.base_scripts
+                    scripts.update(self.unidb.get_script(cp) for cp in v.cp)
+
+        # Keep scripts for which all the characters of a partition can be replaced
+        return {script for script in scripts - self.IGNORED_SCRIPTS - self.base_scripts
+                if self._has_variant_in_script(char_lists, script)}
+
+    def _has_variant_in_script(self, char_lists, script) -> bool:
+        reachable = {0}
+        for i, char_list in enumerate(char_lists):
+            if i not in reachable:
+                continue
+            for char in char_list:
+                if any(self.cp_in_scripts(cp, {script}) for cp in [char.cp] + [v.cp for v in char.get_variants()]):
+                    reachable.add(i + len(char))
+        return len(char_lists) in reachable
-- 
2.43.0


From 0c5a4e606e7b9f3388edb8b10f01d45ed8784ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 035/110] fix: a variant sequence mixing other scripts is
 hidden with the mixed-script variants

---
 lgr/core.py                         |  6 +++---
 lgr/mixed_scripts_variant_filter.py | 32 ++++++++++++++---------------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 4343dd9..799ba6c 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1849,10 +1849,10 @@ class LGR(object):
                 variant_label = label_prefix + var.cp + tuple(label[len(char):])
 
                 if hide_mixed_script_variants:
-                    if mixed_script_filter.cp_in_other_scripts(var.cp, label_prefix):
+                    other_script = mixed_script_filter.get_other_script(var.cp, label_prefix)
+                    if other_script:
                         rule_logger.debug("Variant %s script is eligible for non mixed-scripts", format_cp(var.cp))
-                        script_filter = mixed_script_filter.get_filter_for_other_script(
-                            mixed_script_filter.get_first_script(var.cp))
+                        script_filter = mixed_script_filter.get_filter_for_other_script(other_script)
                     elif not mixed_script_filter.cp_in_base_scripts(var.cp):
                         rule_logger.debug("Variant %s contains mixed-scripts", format_cp(var.cp))
                         continue
diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index 9462408..5fdc885 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -1,4 +1,4 @@
-from typing import Set, Tuple
+from typing import Optional, Set, Tuple
 
 from lgr.exceptions import NotInLGR
 from munidata.database import UnicodeDatabase
@@ -42,24 +42,20 @@ class BaseMixedScriptsVariantFilter:
                 return False
         return True
 
-    def get_first_script(self, cp: Tuple[ord]):
+    def get_scripts(self, cp: Tuple[ord]) -> Set[str]:
         """
-        Get the script of the first code point that has one.
+        Get the scripts of code points, except those that are used with any script.
 
         :param cp: The code points
-        :return: The script, None if all code points are used with any script.
+        :return: The set of scripts
         """
-        for char in cp:
-            script = self.unidb.get_script(char)
-            if script not in self.IGNORED_SCRIPTS:
-                return script
-        return None
+        return {self.unidb.get_script(char) for char in cp} - self.IGNORED_SCRIPTS
 
     def cp_in_base_scripts(self, cp: Tuple[ord]) -> bool:
         return self.cp_in_scripts(cp, self.base_scripts)
 
-    def cp_in_other_scripts(self, cp: Tuple[ord], label_prefix: Tuple[ord] = ()) -> bool:
-        return False
+    def get_other_script(self, cp: Tuple[ord], label_prefix: Tuple[ord] = ()) -> Optional[str]:
+        return None
 
 
 class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
@@ -69,16 +65,20 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
         self.base_scripts: Set[str] = self._get_base_scripts(label)
         self.other_scripts: Set[str] = self._get_scripts_for_variants(label, repertoire)
 
-    def cp_in_other_scripts(self, cp: Tuple[ord], label_prefix: Tuple[ord] = ()) -> bool:
+    def get_other_script(self, cp: Tuple[ord], label_prefix: Tuple[ord] = ()) -> Optional[str]:
         """
-        Check whether code points start a variant label in another script than the one of the label.
+        Get the script of code points that start a variant label in another script than the one of the label.
 
         :param cp: The code points
         :param label_prefix: The code points before cp in variant label
-        :return: True if cp is in the other scripts and label_prefix can be used with any script.
+        :return: The script, None if cp is not in a single other script or if label_prefix already has a script.
         """
-        return self.get_first_script(label_prefix) is None and self.get_first_script(cp) is not None and \
-            self.cp_in_scripts(cp, self.other_scripts)
+        if self.get_scripts(label_prefix) or not self.cp_in_scripts(cp, self.other_scripts):
+            return None
+        for script in sorted(self.get_scripts(cp)):
+            if self.cp_in_scripts(cp, get_permitted_scripts({script})):
+                return script
+        return None
 
     def _get_base_scripts(self, label: Tuple[int]) -> Set[str]:
         scripts = set()
-- 
2.43.0


From 13227b0a18422e494677e84fd334be5f40f895aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 036/110] fix: contexts of variants in index labels are
 evaluated with the code points after the sequence

---
 lgr/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 799ba6c..8cb544e 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1398,10 +1398,11 @@ class LGR(object):
         logger.debug("Computing index label for partition: %s", chars)
         index_label = []
         prefix = tuple()
-        suffix = tuple(c for cp in chars[1:] for c in cp.cp)
+        suffix = tuple(c for cp in chars for c in cp.cp)
         idx = 0
         for char in chars:
             logger.debug('Char CP: %s', format_cp(char.cp))
+            suffix = suffix[len(char):]
             # Index: smallest id of the char and its variants
             ids = [list(char.cp)]
             for var in char.get_variants():
@@ -1417,7 +1418,6 @@ class LGR(object):
             logger.debug('List of variant ids: %s', ids)
             index_label.extend(list(min(ids)))
             prefix += char.cp
-            suffix = suffix[len(char):]
             idx += len(char)
 
         logger.debug("Index label: '%s'", index_label)
-- 
2.43.0


From 8dc86a3c612a0cbf333ba7fdb353fe6addcc3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 037/110] fix: evaluating labels leaves no log handler behind
 when it fails or is abandoned

---
 lgr/core.py | 93 ++++++++++++++++++++++++++---------------------------
 1 file changed, 46 insertions(+), 47 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 8cb544e..9dce9bf 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1079,39 +1079,37 @@ class LGR(object):
             ch.setLevel(logging.INFO)
             rule_logger.addHandler(ch)
 
-        # Start by testing presence of code points in LGR
-        chars = []
-        if generate_chars:
-            (valid, label_parts, label_invalid_parts, chars) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
-        else:
-            (valid, label_parts, label_invalid_parts) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
-        if not valid:
-            rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
-            if collect_log:
-                rule_logger.removeHandler(ch)
+        try:
+            # Start by testing presence of code points in LGR
+            chars = []
             if generate_chars:
-                return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars
+                (valid, label_parts, label_invalid_parts, chars) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
             else:
-                return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue()
+                (valid, label_parts, label_invalid_parts) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
+            if not valid:
+                rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
+                if generate_chars:
+                    return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars
+                else:
+                    return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue()
+
+            # Compute label disposition by analyzing reflexive mappings
+            (disposition, action_idx) = self._test_label_disposition(label, apply_reflexive_mapping=not is_variant)
+            if disposition == INVALID_DISPOSITION:
+                rule_logger.error("Invalid disposition for reflexive mapping, "
+                                  "triggered by action #%d", action_idx)
+                if generate_chars:
+                    return False, [], [], disposition, action_idx, log_output.getvalue(), chars
+                else:
+                    return False, [], [], disposition, action_idx, log_output.getvalue()
 
-        # Compute label disposition by analyzing reflexive mappings
-        (disposition, action_idx) = self._test_label_disposition(label, apply_reflexive_mapping=not is_variant)
-        if disposition == INVALID_DISPOSITION:
-            rule_logger.error("Invalid disposition for reflexive mapping, "
-                              "triggered by action #%d", action_idx)
-            if collect_log:
-                rule_logger.removeHandler(ch)
             if generate_chars:
-                return False, [], [], disposition, action_idx, log_output.getvalue(), chars
+                return True, label, [], disposition, action_idx, log_output.getvalue(), chars
             else:
-                return False, [], [], disposition, action_idx, log_output.getvalue()
-
-        if collect_log:
-            rule_logger.removeHandler(ch)
-        if generate_chars:
-            return True, label, [], disposition, action_idx, log_output.getvalue(), chars
-        else:
-            return True, label, [], disposition, action_idx, log_output.getvalue()
+                return True, label, [], disposition, action_idx, log_output.getvalue()
+        finally:
+            if collect_log:
+                rule_logger.removeHandler(ch)
 
     def compute_label_disposition(self, label, include_invalid=False,
                                   collect_log=True, hide_mixed_script_variants=False,
@@ -1185,24 +1183,28 @@ class LGR(object):
                 ch.setLevel(logging.DEBUG)
                 rule_logger.addHandler(ch)
 
-            # 8.3.  Determining a Disposition for a Label or Variant Label
-            # Step 1
-            eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
-                                                                                     is_variant=variant_cp != label,
-                                                                                     collect_log=collect_log)
-            if not eligible:
-                variant_disp = INVALID_DISPOSITION
-            else:
+            try:
                 # 8.3.  Determining a Disposition for a Label or Variant Label
-                # Step 2 - 3
-                (variant_disp, idx) = self._apply_actions(variant_cp,
-                                                          disp_set,
-                                                          only_variants)
-
-                if variant_disp is None:
+                # Step 1
+                eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
+                                                                                         is_variant=variant_cp != label,
+                                                                                         collect_log=collect_log)
+                if not eligible:
+                    variant_disp = INVALID_DISPOSITION
+                else:
                     # 8.3.  Determining a Disposition for a Label or Variant Label
-                    # Step 4
-                    variant_disp = DEFAULT_DISPOSITION
+                    # Step 2 - 3
+                    (variant_disp, idx) = self._apply_actions(variant_cp,
+                                                              disp_set,
+                                                              only_variants)
+
+                    if variant_disp is None:
+                        # 8.3.  Determining a Disposition for a Label or Variant Label
+                        # Step 4
+                        variant_disp = DEFAULT_DISPOSITION
+            finally:
+                if collect_log:
+                    rule_logger.removeHandler(ch)
 
             if (variant_disp != INVALID_DISPOSITION) or include_invalid:
                 if variant_cp == label:
@@ -1217,9 +1219,6 @@ class LGR(object):
                     else:
                         yield variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue()
 
-            if collect_log:
-                rule_logger.removeHandler(ch)
-
         if not original_label:
             # TODO: already computed since label MUST be eligible
             rule_logger.debug('Add original label')
-- 
2.43.0


From ca5963602d8dc428da4b157892181a36df54dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 038/110] fix: the pattern cached for a rule is not used with
 the lookups of another LGR

---
 lgr/rule.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lgr/rule.py b/lgr/rule.py
index aa1ff0c..f0c5017 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -76,7 +76,7 @@ class Rule(object):
         """
         cache_key = (id(rules_lookup), id(classes_lookup), id(unicode_database), is_look_behind)
         if cache_key in self._pattern_cache:
-            return self._pattern_cache[cache_key]
+            return self._pattern_cache[cache_key][0]
         
         if self.by_ref is not None:
             if self.by_ref not in rules_lookup:
@@ -98,9 +98,18 @@ class Rule(object):
                                            unicode_database,
                                            is_look_behind))
 
-        self._pattern_cache[cache_key] = pattern_io.getvalue()
+        # Keep the elements of the key alive, so that their identifiers are not reused by others
+        self._pattern_cache[cache_key] = (pattern_io.getvalue(), rules_lookup, classes_lookup, unicode_database)
         return pattern_io.getvalue()
     
+    def __getstate__(self):
+        """
+        Called when pickling or copying a rule: the patterns are those of the original elements.
+        """
+        odict = self.__dict__.copy()
+        odict['_pattern_cache'] = {}
+        return odict
+
     def clear_pattern_cache(self):
         """
         Forget the patterns computed so far, for this rule and the ones it contains.
-- 
2.43.0


From e3447175d9cab44e8b7e708032beac7d6d5c7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 039/110] fix: comparing LGRs does not expand their ranges

---
 lgr/tools/compare/diff.py      |  6 +++---
 lgr/tools/compare/intersect.py |  8 ++++----
 lgr/tools/compare/union.py     |  8 ++++----
 lgr/tools/compare/utils.py     | 16 ++++++++++++++++
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index f6c5e81..3f1ea4f 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -5,7 +5,7 @@ diff.py - Compute (textual) diff of two LGRs.
 from __future__ import unicode_literals
 
 from lgr import text_type
-from lgr.tools.compare.utils import display_variant, VariantProperties
+from lgr.tools.compare.utils import display_variant, expand_ranges_in_copy, VariantProperties
 from lgr.utils import format_cp
 
 
@@ -284,8 +284,8 @@ def diff_lgrs(lgr1, lgr2, show_same=True):
     """
     output = ""
 
-    lgr1.expand_ranges()
-    lgr2.expand_ranges()
+    lgr1 = expand_ranges_in_copy(lgr1)
+    lgr2 = expand_ranges_in_copy(lgr2)
 
     output += diff_metadata(lgr1.metadata, lgr2.metadata,
                             show_same=show_same)
diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 3bbbc69..9dae436 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -8,7 +8,7 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -242,7 +242,7 @@ def intersect_lgrs(lgr1, lgr2):
     """
     Compute the intersection of 2 LGRs and returns a valid LGR.
 
-    Note: Ranges have to be expanded before calling this function.
+    Note: Ranges are expanded in the result.
 
     :param lgr1: First LGR.
     :param lgr2: Second LGR.
@@ -250,8 +250,8 @@ def intersect_lgrs(lgr1, lgr2):
     """
     name = 'Intersection of %s and %s' % (lgr1.name, lgr2.name)
 
-    lgr1.expand_ranges()
-    lgr2.expand_ranges()
+    lgr1 = expand_ranges_in_copy(lgr1)
+    lgr2 = expand_ranges_in_copy(lgr2)
 
     # Note: We need to create a copy (copy.deepcopy) for some elements
     # otherwise they could reference the original objects.
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 887f53b..906b378 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -285,7 +285,7 @@ def union_lgrs(lgr1, lgr2):
     """
     Compute the union of 2 LGRs and returns a valid LGR.
 
-    Note: Ranges have to be expanded before calling this function.
+    Note: Ranges are expanded in the result.
 
     :param lgr1: First LGR.
     :param lgr2: Second LGR.
@@ -295,8 +295,8 @@ def union_lgrs(lgr1, lgr2):
 
     logger.debug("Union of %s", name)
 
-    lgr1.expand_ranges()
-    lgr2.expand_ranges()
+    lgr1 = expand_ranges_in_copy(lgr1)
+    lgr2 = expand_ranges_in_copy(lgr2)
 
     # Note: We need to create a copy (copy.deepcopy) for some elements
     # otherwise they could reference the original objects.
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index ded6670..22188df 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -2,6 +2,7 @@
 """
 utils.py - Definition of utility functions.
 """
+import copy
 from collections import namedtuple
 
 from lgr.utils import format_cp
@@ -24,6 +25,21 @@ def display_variant(variant):
         variant.comment)
 
 
+def expand_ranges_in_copy(lgr):
+    """
+    Expand the ranges of an LGR without modifying it.
+
+    :param lgr: The LGR.
+    :return: The LGR itself if it has no range, a copy of it with its ranges expanded otherwise.
+    """
+    if not lgr.repertoire.ranges:
+        return lgr
+
+    output = copy.deepcopy(lgr)
+    output.expand_ranges()
+    return output
+
+
 def compare_objects(first, second, cmp_fct):
     """
     Compare two objects, possibly None.
-- 
2.43.0


From 92fd11537507ef5704047afb88c9654cc114ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 040/110] fix: the union of LGRs keeps the version, description
 and scopes of the second one

---
 lgr/tools/compare/union.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 906b378..50e17de 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -88,15 +88,12 @@ def union_metadata(first, second):
 
     output = Metadata()
 
-    if first.version is not None:
-        output.version = union_version(first.version, second.version)
-    if first.description is not None:
-        output.description = union_description(first.description,
-                                               second.description)
-
-    output.scopes = set.union(set(first.scopes), set(first.scopes))
-    output.languages = set.union(set(first.languages),
-                                 set(second.languages))
+    output.version = union_version(first.version, second.version)
+    output.description = union_description(first.description,
+                                           second.description)
+
+    output.scopes = list(OrderedDict.fromkeys(first.scopes + second.scopes))
+    output.languages = list(OrderedDict.fromkeys(first.languages + second.languages))
 
     output.date = date.today().isoformat()
     output.validity_start = compare_objects(first.validity_start,
-- 
2.43.0


From a4ee6a5bb0d3ec467e5502c5cb8afe0f1a34ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 041/110] fix: the intersection of LGRs only keeps the scopes
 of both

---
 lgr/tools/compare/intersect.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 9dae436..08485ba 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -85,9 +85,8 @@ def intersect_metadata(first, second):
     output.description = intersect_description(first.description,
                                                second.description)
 
-    output.scopes = set.intersection(set(first.scopes), set(first.scopes))
-    output.languages = set.intersection(set(first.languages),
-                                        set(second.languages))
+    output.scopes = [scope for scope in first.scopes if scope in second.scopes]
+    output.languages = [language for language in first.languages if language in second.languages]
 
     output.date = date.today().isoformat()
     output.validity_start = compare_objects(first.validity_start,
-- 
2.43.0


From a68621c7d995ed7e1bfdc7fd80920de0c6cb179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 042/110] fix: compare Unicode versions as numbers when merging
 LGRs

---
 lgr/tools/compare/intersect.py |  4 ++--
 lgr/tools/compare/union.py     |  4 ++--
 lgr/tools/compare/utils.py     | 17 +++++++++++++++++
 lgr/tools/merge_set.py         |  4 ++--
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 08485ba..f48e19d 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -8,7 +8,7 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy
+from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy, latest_unicode_version
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -98,7 +98,7 @@ def intersect_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             latest_unicode_version)
 
     return output
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 50e17de..7d32772 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy
+from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy, latest_unicode_version
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -105,7 +105,7 @@ def union_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             latest_unicode_version)
 
     return output
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 22188df..1ac3ba4 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -40,6 +40,23 @@ def expand_ranges_in_copy(lgr):
     return output
 
 
+def latest_unicode_version(first, second):
+    """
+    Get the latest of two Unicode versions.
+
+    :param first: First version.
+    :param second: Second version.
+    :return: The latest one.
+
+    >>> latest_unicode_version('6.3.0', '10.0.0')
+    '10.0.0'
+    """
+    def version_key(version):
+        return [int(part) if part.isdigit() else -1 for part in version.split('.')]
+
+    return max(first, second, key=version_key)
+
+
 def compare_objects(first, second, cmp_fct):
     """
     Compare two objects, possibly None.
diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 5982621..9b9bfc7 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -22,7 +22,7 @@ from collections import OrderedDict
 from lgr.exceptions import LGRFormatException, CharInvalidContextRule
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, latest_unicode_version
 from lgr.parser.xml_parser import XMLParser
 from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
@@ -122,7 +122,7 @@ def merge_metadata(lgr_set):
 
         output.unicode_version = compare_objects(output.unicode_version,
                                                  metadata.unicode_version,
-                                                 max)
+                                                 latest_unicode_version)
 
     output.scopes = list(scopes.keys())
     output.languages = list(languages.keys())
-- 
2.43.0


From 48e26b8e1a1342c6079fa7f911bd21f21c07ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 043/110] fix: the union of LGRs keeps the variants of the
 first one and the contexts of common code points

---
 lgr/tools/compare/union.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 7d32772..a1a2546 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -13,7 +13,7 @@ from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy, late
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
-from lgr.utils import let_user_choose
+from lgr.utils import format_cp, let_user_choose
 
 logger = logging.getLogger(__name__)
 
@@ -141,7 +141,15 @@ def union_char(lgr, first, second):
 
     tags = list(set.union(set(first.tags), set(second.tags)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    # Keep the context of the code point, unless the LGRs disagree on it
+    when, not_when = first.when, first.not_when
+    if (when, not_when) == (None, None):
+        when, not_when = second.when, second.not_when
+    elif (second.when, second.not_when) not in [(None, None), (when, not_when)]:
+        logger.warning("Contexts of code point '%s' differ, none is kept", format_cp(first.cp))
+        when, not_when = None, None
+
+    lgr.add_cp(first.cp, comment=comment, tag=tags, when=when, not_when=not_when)
 
     for v in set.union(set(first.get_variants()), set(second.get_variants())):
         lgr.add_variant(first.cp, v.cp, variant_type=v.type,
@@ -329,6 +337,11 @@ def union_lgrs(lgr1, lgr2):
                    tag=char.tags,
                    when=char.when, not_when=char.not_when)
 
+        for v in char.get_variants():
+            lgr.add_variant(char.cp, v.cp, variant_type=v.type,
+                            when=v.when, not_when=v.not_when,
+                            comment=v.comment)
+
     for cp in set.difference(second_cps, first_cps):
         char = lgr2.get_char(cp)
 
-- 
2.43.0


From 229749e3964b3fc2b027e4442aa79feb83f534b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 044/110] fix: the intersection of LGRs keeps the common
 variant types and contexts

---
 lgr/tools/compare/intersect.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index f48e19d..48f5d16 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -134,13 +134,18 @@ def intersect_char(lgr, first, second):
 
     tags = list(set.intersection(set(first.tags), set(second.tags)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    when, not_when = None, None
+    if (first.when, first.not_when) == (second.when, second.not_when):
+        when, not_when = first.when, first.not_when
 
-    variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
-    variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
+    lgr.add_cp(first.cp, comment=comment, tag=tags, when=when, not_when=not_when)
 
-    for v in set.intersection(variant_first, variant_second):
-        lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])
+    variant_second = {v: v for v in second.get_variants()}
+
+    for v in first.get_variants():
+        if v in variant_second:
+            variant_type = v.type if v.type == variant_second[v].type else None
+            lgr.add_variant(first.cp, v.cp, variant_type=variant_type, when=v.when, not_when=v.not_when)
 
 
 def intersect_actions(lgr1, lgr2):
-- 
2.43.0


From df051bf05ac7ffa24927a5d56f18c52c39cfba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 045/110] fix: names that clash are renamed, with all their
 uses, in the union and intersection of LGRs

---
 lgr/tools/compare/intersect.py |  93 ++++++++++++---------------
 lgr/tools/compare/union.py     |  99 ++++++----------------------
 lgr/tools/compare/utils.py     | 114 +++++++++++++++++++++++++++++++++
 3 files changed, 172 insertions(+), 134 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 48f5d16..1298721 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -6,9 +6,10 @@ from __future__ import unicode_literals
 
 import copy
 import logging
+from collections import OrderedDict
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy, latest_unicode_version
+from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy, latest_unicode_version, rename_clashes
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -161,10 +162,27 @@ def intersect_actions(lgr1, lgr2):
     # Intersection of actions:
     # - keep same actions.
 
-    actions = list(set.intersection(set(lgr1.actions), set(lgr2.actions)))
-    actions_xml = [lgr1.actions_xml[lgr1.actions.index(a)] for a in actions]
+    actions = OrderedDict((action, action_xml) for action, action_xml in zip(lgr1.actions, lgr1.actions_xml)
+                          if action in lgr2.actions)
 
-    return actions, actions_xml
+    return list(actions.keys()), list(actions.values())
+
+
+def _intersect_definitions(common, first, second):
+    """
+    Intersect two lists of definitions.
+
+    :param common: Names defined in both LGRs.
+    :param first: List of (name, name after the renaming of clashes, XML element) of the first LGR.
+    :param second: The same for the second LGR.
+    :return: (list of names, list of XML elements)
+    """
+    output = OrderedDict()
+    for name, new_name, xml in list(first) + list(second):
+        if name in common:
+            output.setdefault(new_name, xml)
+
+    return list(output.keys()), list(output.values())
 
 
 def intersect_rules(lgr1, lgr2):
@@ -179,30 +197,12 @@ def intersect_rules(lgr1, lgr2):
 
     # Intersection of rules:
     # - keep rules with same name in both LGRs.
-    # - append both elements to final LGR (rename using _1 and _2).
-
-    rules = []
-    rules_xml = []
-
-    for rule_name in frozenset(lgr1.rules) & frozenset(lgr2.rules):
-        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
-        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
-
-        if rule_1 == rule_2:
-            rules_xml.append(rule_1)
-            rules.append(rule_name)
-            continue
-
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
-
-        rules_xml.append(rule_1)
-        rules_xml.append(rule_2)
-
-        rules.append(rule_name + '_1')
-        rules.append(rule_name + '_2')
+    # - append both elements to final LGR (rename using _1 and _2) if they differ.
 
-    return rules, rules_xml
+    new_1, new_2 = rename_clashes(lgr1, lgr2)
+    return _intersect_definitions(frozenset(lgr1.rules) & frozenset(lgr2.rules),
+                                  zip(lgr1.rules, new_1.rules, new_1.rules_xml),
+                                  zip(lgr2.rules, new_2.rules, new_2.rules_xml))
 
 
 def intersect_classes(lgr1, lgr2):
@@ -217,29 +217,12 @@ def intersect_classes(lgr1, lgr2):
 
     # Intersection of classes:
     # - keep classes with same name in both LGRs.
-    # - append both elements to final LGR (rename using _1 and _2).
+    # - append both elements to final LGR (rename using _1 and _2) if they differ.
 
-    classes = []
-    classes_xml = []
-    for class_name in frozenset(lgr1.classes) & frozenset(lgr2.classes):
-        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
-        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
-
-        if class_1 == class_2:
-            classes_xml.append(class_1)
-            classes.append(class_name)
-            continue
-
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
-
-        classes_xml.append(class_1)
-        classes_xml.append(class_2)
-
-        classes.append(class_name + '_1')
-        classes.append(class_name + '_2')
-
-    return classes, classes_xml
+    new_1, new_2 = rename_clashes(lgr1, lgr2)
+    return _intersect_definitions(frozenset(lgr1.classes) & frozenset(lgr2.classes),
+                                  zip(lgr1.classes, new_1.classes, new_1.classes_xml),
+                                  zip(lgr2.classes, new_2.classes, new_2.classes_xml))
 
 
 def intersect_lgrs(lgr1, lgr2):
@@ -257,6 +240,12 @@ def intersect_lgrs(lgr1, lgr2):
     lgr1 = expand_ranges_in_copy(lgr1)
     lgr2 = expand_ranges_in_copy(lgr2)
 
+    (rules, rules_xml) = intersect_rules(lgr1, lgr2)
+    (classes, classes_xml) = intersect_classes(lgr1, lgr2)
+
+    # Rules with the same name are the same from now on
+    lgr1, lgr2 = rename_clashes(lgr1, lgr2)
+
     # Note: We need to create a copy (copy.deepcopy) for some elements
     # otherwise they could reference the original objects.
 
@@ -282,12 +271,10 @@ def intersect_lgrs(lgr1, lgr2):
     lgr.actions = copy.deepcopy(actions)
     lgr.actions_xml = actions_xml
 
-    (rules, rules_xml) = intersect_rules(lgr1, lgr2)
-    lgr.rules = copy.deepcopy(rules)
+    lgr.rules = rules
     lgr.rules_xml = rules_xml
 
-    (classes, classes_xml) = intersect_classes(lgr1, lgr2)
-    lgr.classes = copy.deepcopy(classes)
+    lgr.classes = classes
     lgr.classes_xml = classes_xml
 
     return lgr
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index a1a2546..f820c21 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy, latest_unicode_version
+from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy, latest_unicode_version, rename_clashes
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -172,15 +172,12 @@ def union_actions(lgr1, lgr2):
     # Need OrderedDict instead of sets to keep order
 
     actions = OrderedDict()
-    actions_xml = OrderedDict()
 
-    actions.update(OrderedDict.fromkeys(lgr1.actions))
-    actions.update(OrderedDict.fromkeys(lgr2.actions))
+    for lgr in (lgr1, lgr2):
+        for action, action_xml in zip(lgr.actions, lgr.actions_xml):
+            actions.setdefault(action, action_xml)
 
-    actions_xml.update(OrderedDict.fromkeys(lgr1.actions_xml))
-    actions_xml.update(OrderedDict.fromkeys(lgr2.actions_xml))
-
-    return list(actions.keys()), list(actions_xml.keys())
+    return list(actions.keys()), list(actions.values())
 
 
 def union_rules(lgr1, lgr2):
@@ -194,44 +191,14 @@ def union_rules(lgr1, lgr2):
     logger.debug("Union of rules")
 
     # Union of rules:
-    # - Keep rules from both LGRs.
-    # - If rule with same name in both LGRs:
-    #   - Append both elements to final LGR (rename using _1 and _2).
-
-    rules = []
-    rules_xml = []
-
-    rules_lgr1 = frozenset(lgr1.rules)
-    rules_lgr2 = frozenset(lgr2.rules)
-
-    # Compute intersection of rules
-    for rule_name in rules_lgr1 & rules_lgr2:
-        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
-        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
-
-        if rule_1 == rule_2:
-            rules_xml.append(rule_1)
-            rules.append(rule_name)
-            continue
-
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
-
-        rules_xml.append(rule_1)
-        rules_xml.append(rule_2)
-
-        rules.append(rule_name + '_1')
-        rules.append(rule_name + '_2')
-
-    for rule_name in rules_lgr1 - rules_lgr2:
-        rules_xml.append(lgr1.rules_xml[lgr1.rules.index(rule_name)])
-        rules.append(rule_name)
+    # - Keep rules from both LGRs, in their order.
+    # - Rules with same name in both LGRs are the same: the others have been renamed (using _1 and _2).
 
-    for rule_name in rules_lgr2 - rules_lgr1:
-        rules_xml.append(lgr2.rules_xml[lgr2.rules.index(rule_name)])
-        rules.append(rule_name)
+    rules = OrderedDict(zip(lgr1.rules, lgr1.rules_xml))
+    for rule_name, rule_xml in zip(lgr2.rules, lgr2.rules_xml):
+        rules.setdefault(rule_name, rule_xml)
 
-    return rules, rules_xml
+    return list(rules.keys()), list(rules.values())
 
 
 def union_classes(lgr1, lgr2):
@@ -245,45 +212,14 @@ def union_classes(lgr1, lgr2):
     logger.debug("Union of classes")
 
     # Union of classes:
-    # - Keep classes from both LGRs.
-    # - If class with same name in both LGRs:
-    #   - Append both elements to final LGR (rename using _1 and _2).
-
-    classes = []
-    classes_xml = []
-
-    classes_lgr1 = frozenset(lgr1.classes)
-    classes_lgr2 = frozenset(lgr2.classes)
-
-    # Compute intersection of classes
-    for class_name in classes_lgr1 & classes_lgr2:
-        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
-        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
-
-        if class_1 == class_2:
-            classes_xml.append(class_1)
-            classes.append(class_name)
-            continue
-
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
-
-        classes_xml.append(class_1)
-        classes_xml.append(class_2)
-
-        classes.append(class_name + '_1')
-        classes.append(class_name + '_2')
-
-    # Append all other classes
-    for class_name in classes_lgr1 - classes_lgr2:
-        classes_xml.append(lgr1.classes_xml[lgr1.classes.index(class_name)])
-        classes.append(class_name)
+    # - Keep classes from both LGRs, in their order.
+    # - Classes with same name in both LGRs are the same: the others have been renamed (using _1 and _2).
 
-    for class_name in classes_lgr2 - classes_lgr1:
-        classes_xml.append(lgr2.classes_xml[lgr2.classes.index(class_name)])
-        classes.append(class_name)
+    classes = OrderedDict(zip(lgr1.classes, lgr1.classes_xml))
+    for class_name, class_xml in zip(lgr2.classes, lgr2.classes_xml):
+        classes.setdefault(class_name, class_xml)
 
-    return classes, classes_xml
+    return list(classes.keys()), list(classes.values())
 
 
 def union_lgrs(lgr1, lgr2):
@@ -302,6 +238,7 @@ def union_lgrs(lgr1, lgr2):
 
     lgr1 = expand_ranges_in_copy(lgr1)
     lgr2 = expand_ranges_in_copy(lgr2)
+    lgr1, lgr2 = rename_clashes(lgr1, lgr2)
 
     # Note: We need to create a copy (copy.deepcopy) for some elements
     # otherwise they could reference the original objects.
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 1ac3ba4..f5a740e 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -5,6 +5,9 @@ utils.py - Definition of utility functions.
 import copy
 from collections import namedtuple
 
+from lxml import etree
+
+from lgr import text_type
 from lgr.utils import format_cp
 
 
@@ -40,6 +43,117 @@ def expand_ranges_in_copy(lgr):
     return output
 
 
+def _get_definitions(lgr):
+    """
+    Get the XML elements defining the rules and classes of an LGR.
+
+    :return: Dictionary of (kind, name) to element, kind being 'rule' or 'class'.
+    """
+    output = {}
+    for kind, names, elements in (('rule', lgr.rules, lgr.rules_xml), ('class', lgr.classes, lgr.classes_xml)):
+        for name, xml in zip(names, elements):
+            # Ignore the text after the element: it is not part of it
+            output.setdefault((kind, name), etree.fromstring(xml.strip()))
+    return output
+
+
+def _iter_named_references(element):
+    """
+    Iterate over the elements of a definition which name a rule or a class in their 'by-ref' attribute.
+    """
+    for child in element.iter(etree.Element):
+        if child.get('by-ref') is not None:
+            kind = etree.QName(child).localname
+            yield child, (kind, child.get('by-ref'))
+
+
+def _rename(lgr, names):
+    """
+    Rename rules and classes, and all their uses.
+
+    :param lgr: The LGR.
+    :param names: Dictionary of (kind, name) to new name, kind being 'rule' or 'class'.
+    :return: Copy of the LGR with the new names.
+    """
+    def new_name(kind, name):
+        return names.get((kind, name), name)
+
+    def rename_definitions(kind, old_names, elements):
+        output = []
+        for name, xml in zip(old_names, elements):
+            element = etree.fromstring(xml.strip())
+            renamed = (kind, name) in names
+            if renamed:
+                element.set('name', new_name(kind, name))
+            for child, reference in _iter_named_references(element):
+                if reference in names:
+                    child.set('by-ref', names[reference])
+                    renamed = True
+            output.append(etree.tostring(element, encoding=text_type) if renamed else xml)
+        return [new_name(kind, name) for name in old_names], output
+
+    lgr = copy.deepcopy(lgr)
+    lgr.rules, lgr.rules_xml = rename_definitions('rule', lgr.rules, lgr.rules_xml)
+    lgr.classes, lgr.classes_xml = rename_definitions('class', lgr.classes, lgr.classes_xml)
+    actions_xml = []
+    for action, xml in zip(lgr.actions, lgr.actions_xml):
+        if ('rule', action.match) in names or ('rule', action.not_match) in names:
+            action.match = new_name('rule', action.match)
+            action.not_match = new_name('rule', action.not_match)
+            element = etree.fromstring(xml.strip())
+            for attribute, value in (('match', action.match), ('not-match', action.not_match)):
+                if value is not None:
+                    element.set(attribute, value)
+            xml = etree.tostring(element, encoding=text_type)
+        actions_xml.append(xml)
+    lgr.actions_xml = actions_xml
+    for char in lgr.repertoire:
+        for item in [char] + list(char.get_variants()):
+            item.when = new_name('rule', item.when)
+            item.not_when = new_name('rule', item.not_when)
+    return lgr
+
+
+def rename_clashes(lgr1, lgr2):
+    """
+    Rename the rules and classes that have the same name but different definitions in two LGRs.
+
+    _1 is appended to the names of the first LGR and _2 to the ones of the second LGR, and all the uses of these names
+    follow.
+
+    :param lgr1: First LGR, without range.
+    :param lgr2: Second LGR, without range.
+    :return: (first LGR, second LGR), copied if something has been renamed.
+    """
+    definitions_1 = _get_definitions(lgr1)
+    definitions_2 = _get_definitions(lgr2)
+    common = set(definitions_1) & set(definitions_2)
+    clashes = {key for key in common if etree.tostring(definitions_1[key]) != etree.tostring(definitions_2[key])}
+    # A definition that relies on another which differs is not the same either
+    found = bool(clashes)
+    while found:
+        dependent = {key for key in common - clashes
+                     if any(reference in clashes for _, reference in _iter_named_references(definitions_1[key]))}
+        clashes |= dependent
+        found = bool(dependent)
+
+    if not clashes:
+        return lgr1, lgr2
+
+    output = []
+    used = set(definitions_1) | set(definitions_2)
+    for lgr, suffix in ((lgr1, '_1'), (lgr2, '_2')):
+        names = {}
+        for kind, name in sorted(clashes):
+            new_name = name + suffix
+            while (kind, new_name) in used:
+                new_name += suffix
+            used.add((kind, new_name))
+            names[(kind, name)] = new_name
+        output.append(_rename(lgr, names))
+    return tuple(output)
+
+
 def latest_unicode_version(first, second):
     """
     Get the latest of two Unicode versions.
-- 
2.43.0


From 18139c3418bb1ef11ac259a1509034f23d2a5d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 046/110] fix: no difference is reported between LGRs that both
 have no version or description

---
 lgr/tools/compare/diff.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index 3f1ea4f..f808e32 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -87,9 +87,9 @@ def diff_version(first, second, show_same=False):
     output = ''
 
     # Check that none of the object is None before processing
-    if first is None:
+    if first is None and (second is not None or show_same):
         output += "\nFirst LGR has no version"
-    if second is None:
+    if second is None and (first is not None or show_same):
         output += "\nSecond LGR has no version"
 
     if first is not None and second is not None:
@@ -115,9 +115,9 @@ def diff_description(first, second, show_same=False):
     output = ''
 
     # Check that none of the object is None before processing
-    if first is None:
+    if first is None and (second is not None or show_same):
         output += "\nFirst LGR has no description"
-    if second is None:
+    if second is None and (first is not None or show_same):
         output += "\nSecond LGR has no description"
 
     if first is not None and second is not None:
-- 
2.43.0


From 9a5cf08b042d75790a0fce0bd5421d109ea9875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 047/110] fix: the contexts of code points are compared, and
 their tags whatever their order

---
 lgr/tools/compare/diff.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index f808e32..2948093 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -214,13 +214,14 @@ def diff_char(first, second, show_same=True):
     variant_first = {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in first.get_variants()}
     variant_second = {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in second.get_variants()}
 
-    if not show_same and \
-                    first.comment == second.comment and first.tags == second.tags and variant_first == variant_second:
-        return output
-
     output += compare_things(first.comment, second.comment, "comment",
                              show_same=show_same)
-    output += compare_things(first.tags, second.tags, "tags",
+    output += compare_things(first.when, second.when, "when",
+                             show_same=show_same)
+    output += compare_things(first.not_when, second.not_when, "not-when",
+                             show_same=show_same)
+    # The order of the tags has no meaning
+    output += compare_things(set(first.tags), set(second.tags), "tags", True,
                              show_same=show_same)
 
     output += compare_things(variant_first, variant_second, "variants", True,
-- 
2.43.0


From 208d7d0809f20d359223bb37b8a25f841b4b9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 048/110] fix: code points and sequences are told apart in the
 difference of repertoires

---
 lgr/tools/compare/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index 2948093..daed3ea 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -304,7 +304,7 @@ def diff_lgrs(lgr1, lgr2, show_same=True):
     second_cps = {c.cp for c in lgr2.repertoire}
 
     output += compare_things(first_cps, second_cps, "repertoire", True,
-                             format_fct=lambda c: " ".join(map(format_cp, c)),
+                             format_fct=lambda c: ", ".join(map(format_cp, c)),
                              show_same=show_same)
 
     output += """
-- 
2.43.0


From 5c6104e97c478435292a5bbd8aa44e41e5bd326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 049/110] fix: rules, classes and actions are compared by
 contents, not only by name or disposition

---
 lgr/tools/compare/diff.py  | 61 ++++++++++++++++++++++++++++++++++----
 lgr/tools/compare/utils.py | 19 +++++++++---
 2 files changed, 71 insertions(+), 9 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index daed3ea..670ff54 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -4,8 +4,14 @@ diff.py - Compute (textual) diff of two LGRs.
 """
 from __future__ import unicode_literals
 
+from lxml import etree
+
 from lgr import text_type
-from lgr.tools.compare.utils import display_variant, expand_ranges_in_copy, VariantProperties
+from lgr.tools.compare.utils import (definition_content,
+                                     display_variant,
+                                     expand_ranges_in_copy,
+                                     get_definitions,
+                                     VariantProperties)
 from lgr.utils import format_cp
 
 
@@ -231,6 +237,46 @@ def diff_char(first, second, show_same=True):
     return output
 
 
+def display_action(action):
+    """
+    Nicely display an action.
+
+    :param action: The action to display.
+    """
+    output = action.disp
+    for name, value in (('match', action.match), ('not-match', action.not_match),
+                        ('any-variant', action.any_variant),
+                        ('all-variants', action.all_variants),
+                        ('only-variants', action.only_variants),
+                        ('comment', action.comment)):
+        if value is not None:
+            output += " - {}={}".format(name, value if isinstance(value, text_type) else " ".join(sorted(value)))
+    return output
+
+
+def diff_definitions(lgr1, lgr2, kind):
+    """
+    Diff the definitions of the rules or classes which are in both LGRs.
+
+    :param lgr1: First LGR.
+    :param lgr2: Second LGR.
+    :param kind: 'rule' or 'class'.
+    :return: Text comparison.
+    """
+    output = ""
+    definitions_1 = get_definitions(lgr1)
+    definitions_2 = get_definitions(lgr2)
+    for key in sorted(set(definitions_1) & set(definitions_2)):
+        first, second = definitions_1[key], definitions_2[key]
+        if key[0] == kind and definition_content(first) != definition_content(second):
+            output += """
+Definitions of {} '{}' differ:
+First LGR: '{}'.
+Second LGR: '{}'.
+""".format(kind, key[1], etree.tostring(first, encoding=text_type), etree.tostring(second, encoding=text_type))
+    return output
+
+
 def diff_actions(lgr1, lgr2, show_same=False):
     """
     Diff two action lists.
@@ -240,8 +286,13 @@ def diff_actions(lgr1, lgr2, show_same=False):
     :param show_same: Show result even if they are identical.
     :return: Text comparison.
     """
-    actions_1 = [a.disp for a in lgr1.actions]
-    actions_2 = [a.disp for a in lgr2.actions]
+    actions_1 = [display_action(a) for a in lgr1.actions]
+    actions_2 = [display_action(a) for a in lgr2.actions]
+    if set(actions_1) == set(actions_2):
+        # The first action that applies is the one that counts
+        output = compare_things(actions_1, actions_2, "actions order")
+        if output:
+            return output
     return compare_things(set(actions_1), set(actions_2), "actions", True,
                           show_same=show_same)
 
@@ -256,7 +307,7 @@ def diff_rules(lgr1, lgr2, show_same=False):
     :return: Text comparison.
     """
     return compare_things(set(lgr1.rules), set(lgr2.rules), "rules", True,
-                          show_same=show_same)
+                          show_same=show_same) + diff_definitions(lgr1, lgr2, 'rule')
 
 
 def diff_classes(lgr1, lgr2, show_same=False):
@@ -269,7 +320,7 @@ def diff_classes(lgr1, lgr2, show_same=False):
     :return: Text comparison.
     """
     return compare_things(set(lgr1.classes), set(lgr2.classes), "classes", True,
-                          show_same=show_same)
+                          show_same=show_same) + diff_definitions(lgr1, lgr2, 'class')
 
 
 def diff_lgrs(lgr1, lgr2, show_same=True):
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index f5a740e..0375cf5 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -43,7 +43,7 @@ def expand_ranges_in_copy(lgr):
     return output
 
 
-def _get_definitions(lgr):
+def get_definitions(lgr):
     """
     Get the XML elements defining the rules and classes of an LGR.
 
@@ -57,6 +57,17 @@ def _get_definitions(lgr):
     return output
 
 
+def definition_content(element):
+    """
+    Get the content of the definition of a rule or class, without what only pertains to its layout.
+
+    :param element: XML element of the definition.
+    :return: Content that can be compared to another one.
+    """
+    return (etree.QName(element).localname, sorted(element.attrib.items()), ' '.join((element.text or '').split()),
+            [definition_content(child) for child in element.iterchildren(etree.Element)])
+
+
 def _iter_named_references(element):
     """
     Iterate over the elements of a definition which name a rule or a class in their 'by-ref' attribute.
@@ -125,10 +136,10 @@ def rename_clashes(lgr1, lgr2):
     :param lgr2: Second LGR, without range.
     :return: (first LGR, second LGR), copied if something has been renamed.
     """
-    definitions_1 = _get_definitions(lgr1)
-    definitions_2 = _get_definitions(lgr2)
+    definitions_1 = get_definitions(lgr1)
+    definitions_2 = get_definitions(lgr2)
     common = set(definitions_1) & set(definitions_2)
-    clashes = {key for key in common if etree.tostring(definitions_1[key]) != etree.tostring(definitions_2[key])}
+    clashes = {key for key in common if definition_content(definitions_1[key]) != definition_content(definitions_2[key])}
     # A definition that relies on another which differs is not the same either
     found = bool(clashes)
     while found:
-- 
2.43.0


From 66158c1c89144afde8dde9aff89bab1528e26fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 050/110] fix: variants which are not symmetric fail the strict
 symmetry test

---
 lgr/validate/symmetry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/validate/symmetry.py b/lgr/validate/symmetry.py
index b1c0173..e3cdf26 100644
--- a/lgr/validate/symmetry.py
+++ b/lgr/validate/symmetry.py
@@ -43,6 +43,7 @@ def check_symmetry(lgr, options):
                 logger.warning('CP %s: Variant %s is not in repertoire.',
                                format_cp(a.cp), format_cp(b.cp))
                 lgr.notify_error('basic_symmetry')
+                lgr.notify_error('strict_symmetry')
                 result['repertoire'].append({
                     'char': a,
                     'variant': b,
@@ -66,6 +67,7 @@ def check_symmetry(lgr, options):
                 logger.warning('CP %s should have CP %s in its variants.',
                                format_cp(b.cp), format_cp(a.cp))
                 lgr.notify_error('basic_symmetry')
+                lgr.notify_error('strict_symmetry')
                 result['repertoire'].append({
                     'char': a,
                     'variant': b,
-- 
2.43.0


From 560df72bb52e849849c2a527a566857f24f2f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 051/110] fix: transitivity test fails when a variant is not in
 the LGR, as the check does

---
 lgr/validate/transitivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lgr/validate/transitivity.py b/lgr/validate/transitivity.py
index 6a5cc30..046ebce 100644
--- a/lgr/validate/transitivity.py
+++ b/lgr/validate/transitivity.py
@@ -48,6 +48,7 @@ def check_transitivity(lgr, options):
                 variants = lgr.get_variants(b.cp)
             except NotInLGR:
                 logger.error("Code point '%s' not in LGR", format_cp(b.cp))
+                lgr.notify_error('basic_transitivity')
                 success = False
                 continue
             # Variant is defined in repertoire
-- 
2.43.0


From 4d5ef057ad2a604212dc79f5568ed90a47659e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 052/110] fix: LGRs with variants in a range can be populated

---
 lgr/populate/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lgr/populate/__init__.py b/lgr/populate/__init__.py
index 044a6d1..bdb33fc 100644
--- a/lgr/populate/__init__.py
+++ b/lgr/populate/__init__.py
@@ -21,6 +21,14 @@ def populate_lgr(lgr):
     :param lgr: The LGR to be populated.
     :return: Result of checks and summary as a string
     """
+    # ranges cannot have variants
+    variants = {b.cp for a in lgr.repertoire for b in a.get_variants()}
+    for first_cp, last_cp in list(lgr.repertoire.ranges):
+        if any(len(cp) == 1 and first_cp <= cp[0] <= last_cp for cp in variants):
+            logger.info("Expand range '{} - {}' as one of its code points is a variant".format(
+                format_cp(first_cp), format_cp(last_cp)))
+            lgr.expand_range(first_cp, last_cp)
+
     # not in LGR variants
     for a in lgr.repertoire:
         for b in a.get_variants():
-- 
2.43.0


From dbbcb95d0daf2a98495a562a33051d3184db0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 053/110] fix: RFC 7940 checks are only run on demand, and once

---
 lgr/validate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/__init__.py b/lgr/validate/__init__.py
index abdbe7f..d408306 100644
--- a/lgr/validate/__init__.py
+++ b/lgr/validate/__init__.py
@@ -50,7 +50,7 @@ def validate_lgr(lgr, options):
 
     result = []
 
-    TO_RUN = CHECKS
+    TO_RUN = list(CHECKS)
     if options.get('rfc7940'):
         TO_RUN += RFC7940_CHECKS
 
-- 
2.43.0


From 65af67ba5a8667f2f5cfa4cedb45498cfd6b6503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 054/110] fix: variant types are tested even if the LGR only
 has ranges

---
 lgr/validate/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 6af4988..548f28d 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -36,7 +36,7 @@ def check_lgr_data(lgr):
                     logging.error("Bad variant type '%s'", t)
                     success = False
                     lgr.notify_error('data_variant_type')
-        lgr.notify_tested('data_variant_type')
+    lgr.notify_tested('data_variant_type')
 
     # Check that all chars exist in the given Unicode version
     unidb_version = lgr.unicode_database.get_unicode_version()
-- 
2.43.0


From 5653f8e9808b8fde080962138f60a29c1cc864a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 055/110] fix: LGRs without Unicode database can be validated

---
 lgr/validate/miscellaneous.py | 4 +++-
 lgr/validate/rebuild_lgr.py   | 6 ++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 548f28d..b80102f 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -39,7 +39,9 @@ def check_lgr_data(lgr):
     lgr.notify_tested('data_variant_type')
 
     # Check that all chars exist in the given Unicode version
-    unidb_version = lgr.unicode_database.get_unicode_version()
+    unidb_version = None
+    if lgr.unicode_database is not None:
+        unidb_version = lgr.unicode_database.get_unicode_version()
     if unidb_version == lgr.metadata.unicode_version:
         lgr.notify_tested('valid_unicode_version')
         # First add all code points to the set "to_check"
diff --git a/lgr/validate/rebuild_lgr.py b/lgr/validate/rebuild_lgr.py
index ef438a6..e78c403 100644
--- a/lgr/validate/rebuild_lgr.py
+++ b/lgr/validate/rebuild_lgr.py
@@ -71,8 +71,7 @@ def rebuild_lgr(lgr, options):
                 if status is not None:
                     result['repertoire'].setdefault(char, {}).setdefault('errors', []).append(status)
                     range_ok = False
-                in_script, _ = lgr.cp_in_script([cp])
-                if not in_script:
+                if lgr.unicode_database is not None and not lgr.cp_in_script([cp])[0]:
                     result['repertoire'].setdefault(char, {}).setdefault('warnings', []).append(CharNotInScript(cp))
                     range_ok = False
 
@@ -94,8 +93,7 @@ def rebuild_lgr(lgr, options):
                              format_cp(char.last_cp))
             continue
 
-        in_script, _ = lgr.cp_in_script(char.cp)
-        if not in_script:
+        if lgr.unicode_database is not None and not lgr.cp_in_script(char.cp)[0]:
             result['repertoire'].setdefault(char, {}).setdefault('warnings', []).append(CharNotInScript(char.cp))
         # Insert code point
         try:
-- 
2.43.0


From a34a286860539bbcc99fb88ff9212b5e9b75c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 056/110] fix: data are checked even if the check of the rules
 fails

---
 lgr/validate/miscellaneous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index b80102f..653bf57 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -117,7 +117,8 @@ def check_miscellaneous(lgr, options):
         'repertoire': []
     }
 
-    success = check_lgr_rules(lgr) and check_lgr_data(lgr)
+    rules_success = check_lgr_rules(lgr)
+    success = check_lgr_data(lgr) and rules_success
 
     logger.info("Miscellaneous test done")
 
-- 
2.43.0


From 5223c578b5354f07783afe70249a7705d5690ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 057/110] fix: the order of references is only tested if all
 are integers

---
 lgr/validate/miscellaneous.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 653bf57..1d8f355 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -77,10 +77,10 @@ def check_lgr_data(lgr):
 
 def check_ref_ascending(lgr, reflist):
     last = -1
+    if not all(re.match(r'\d+$', n) for n in reflist):
+        # Not clear how to order references that are not integers
+        return True
     for n in reflist:
-        if not re.match(r'\d+$', n):
-            # Not clear how to order references that are not integers
-            break
         if not int(n) > last:
             lgr.notify_error('ref_attribute_ascending')
             logging.warning("references not in ascending order: %d --> %d", last, int(n))
-- 
2.43.0


From 05b56ef2670e270a7708fcad20e69d0890f7df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 058/110] fix: versions that are not a decimal integer fail the
 test

---
 lgr/validate/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/metadata.py b/lgr/validate/metadata.py
index acb89d2..504fd73 100644
--- a/lgr/validate/metadata.py
+++ b/lgr/validate/metadata.py
@@ -74,7 +74,7 @@ def check_metadata(lgr, options):
 
     # Version
     if lgr.metadata.version is not None:
-        if not re.match(r'[1-9]\d*$', lgr.metadata.version.value):
+        if not re.match(r'[1-9][0-9]*\Z', lgr.metadata.version.value):
             lgr.notify_error('metadata_version_integer')
             success = False
     lgr.notify_tested('metadata_version_integer')
-- 
2.43.0


From 250a0f903de172a00d642e7635e9a0efb600aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 059/110] fix: LGRs with variants of code points that are not
 IDNA-valid can be rebuilt

---
 lgr/validate/rebuild_lgr.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lgr/validate/rebuild_lgr.py b/lgr/validate/rebuild_lgr.py
index e78c403..99766d9 100644
--- a/lgr/validate/rebuild_lgr.py
+++ b/lgr/validate/rebuild_lgr.py
@@ -107,13 +107,15 @@ def rebuild_lgr(lgr, options):
         except LGRException as exc:
             result['repertoire'].setdefault(char, {}).setdefault('errors', []).append(exc)
             logger.error("Cannot add code point '%s'", format_cp(char.cp))
-            if not isinstance(exc, CharInvalidIdnaProperty):  # Cannot include non-IDNA valid code points
-                target_lgr.add_cp(char.cp,
-                                  comment=char.comment,
-                                  ref=char.references,
-                                  tag=char.tags,
-                                  when=char.when, not_when=char.not_when,
-                                  force=True)
+            if isinstance(exc, CharInvalidIdnaProperty):
+                # Cannot include non-IDNA valid code points, nor their variants
+                continue
+            target_lgr.add_cp(char.cp,
+                              comment=char.comment,
+                              ref=char.references,
+                              tag=char.tags,
+                              when=char.when, not_when=char.not_when,
+                              force=True)
 
         # Create variants
         for var in char.get_variants():
-- 
2.43.0


From 13f8189474dbfcd5ad2ea909d1d56a9957a31dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 060/110] fix: variants which are not IDNA-valid do not prevent
 from checking symmetry and transitivity

---
 lgr/validate/symmetry.py     | 2 +-
 lgr/validate/transitivity.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/validate/symmetry.py b/lgr/validate/symmetry.py
index e3cdf26..2fe48df 100644
--- a/lgr/validate/symmetry.py
+++ b/lgr/validate/symmetry.py
@@ -58,7 +58,7 @@ def check_symmetry(lgr, options):
             # let's see if the original character is in its
             # variants
             reverse = []
-            for v in lgr.get_variants(b.cp):
+            for v in lgr.repertoire.get_variants(b.cp):
                 if a.cp == v.cp:
                     reverse.append(v)
 
diff --git a/lgr/validate/transitivity.py b/lgr/validate/transitivity.py
index 046ebce..3ca51a1 100644
--- a/lgr/validate/transitivity.py
+++ b/lgr/validate/transitivity.py
@@ -45,7 +45,7 @@ def check_transitivity(lgr, options):
         for b in a_variants:
             logger.debug("A: '%s' - B: '%s'", format_cp(a.cp), format_cp(b.cp))
             try:
-                variants = lgr.get_variants(b.cp)
+                variants = lgr.repertoire.get_variants(b.cp)
             except NotInLGR:
                 logger.error("Code point '%s' not in LGR", format_cp(b.cp))
                 lgr.notify_error('basic_transitivity')
-- 
2.43.0


From 4df67be976a9251c96c85368ce42c58e667f6d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 061/110] fix: large variant sets can be listed

---
 lgr/char.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index 3485fcb..1de7577 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -804,22 +804,21 @@ class Repertoire(object):
                   a list of code points included in the set.
         """
 
-        def dfs(char, visited=None):
+        def dfs(char):
             """ Utility function to iterate in a char/variants (Depth-First Search)."""
-            if visited is None:
-                visited = set()
-            visited.add(char.cp)
-            for variant in char.get_variants():
-                if variant.cp in visited:
-                    continue
-                try:
-                    reverse_char = self.get_char(variant.cp)
-                except NotInLGR:
-                    if force:
-                        dfs(CharBase(variant.cp), visited)
-                    # Ignore invalid LGR
-                    continue
-                dfs(reverse_char, visited)
+            visited = {char.cp}
+            to_visit = [char]
+            while to_visit:
+                for variant in to_visit.pop().get_variants():
+                    if variant.cp in visited:
+                        continue
+                    try:
+                        to_visit.append(self.get_char(variant.cp))
+                    except NotInLGR:
+                        # Ignore invalid LGR
+                        if not force:
+                            continue
+                    visited.add(variant.cp)
             return visited
 
         variant_sets = set()
-- 
2.43.0


From 54610b594f51168c3148fc498d038396cd703bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 062/110] fix: code points not in order are not in strict order
 either

---
 lgr/parser/xml_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 01876fc..af40019 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -276,6 +276,7 @@ class XMLParser(LGRParser):
                         logger.warning("cp attribute not in ascending order: '%s'",
                                        child.get('cp'))
                         self.rfc7940_checks.error('char_ascending_order')
+                        self.rfc7940_checks.error('char_strict_ascending_order')
                 previous_codepoint = codepoint
 
                 try:
-- 
2.43.0


From 03d23b672ae665fd815377c2ef5fb24f3b3865fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 063/110] fix: Unicode versions followed by something else are
 not valid

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 1e1d637..3ebe820 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -322,7 +322,7 @@ class Metadata(object):
                                     has an invalid format.
         """
 
-        if re.match(r'\d{1,}\.\d{1,}\.\d{1,}', unicode_version) is None:
+        if re.fullmatch(r'[0-9]+\.[0-9]+\.[0-9]+', unicode_version) is None:
             logger.log(logging.WARNING if force else logging.ERROR,
                        "Invalid Unicode version: '%s'", unicode_version)
             self.rfc7940_checks.error('valid_unicode_version')
-- 
2.43.0


From 3c531e762b189fb3f7f7d0d3bcedde86d9fe6111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 064/110] fix: malformed language tags are not valid

---
 lgr/metadata.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 3ebe820..969780a 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -24,6 +24,25 @@ logger = logging.getLogger(__name__)
 # Initializes mimetypes module
 mimetypes.init()
 
+# Form of the language tags (see RFC5646, section 2.1), their subtags are checked against the registry
+LANGUAGE_REGEX = (r'[A-Za-z]{1,8}(-[A-Za-z0-9]{2,8})*'
+                  r'(-[0-9A-WY-Za-wy-z](-[A-Za-z0-9]{2,8})+)*(-[Xx](-[A-Za-z0-9]{1,8})+)?')
+
+
+def _is_valid_language(language):
+    """
+    Check whether a language is a valid RFC 5646 language tag.
+
+    :param str language: The language to check.
+    :return: True if the language is valid, False otherwise.
+
+    >>> _is_valid_language('zh-Hant')
+    True
+    >>> _is_valid_language('zh--Hant')
+    False
+    """
+    return re.fullmatch(LANGUAGE_REGEX, language) is not None and rfc5646.check(language)
+
 
 def _validate_date(date, force):
     """
@@ -180,7 +199,7 @@ class Metadata(object):
         scripts = []
         for language in self.languages:
             lang_tag = rfc5646.tag(language)
-            if allow_invalid or lang_tag.valid:
+            if allow_invalid or _is_valid_language(language):
                 iso_script_tag = lang_tag.script
                 iso_script = None
                 if iso_script_tag is not None:
@@ -208,7 +227,7 @@ class Metadata(object):
                                     has an invalid format.
         """
         try:
-            if not rfc5646.check(language):
+            if not _is_valid_language(language):
                 logger.log(logging.WARNING if force else logging.ERROR,
                            "Invalid language: '%s'", language)
                 self.rfc7940_checks.error('metadata_language')
@@ -239,7 +258,7 @@ class Metadata(object):
         languages = list(languages)  # languages is iterator, so for-loop will exhaust it
         for language in languages:
             try:
-                if not rfc5646.check(language):
+                if not _is_valid_language(language):
                     logger.log(logging.WARNING if force else logging.ERROR,
                                "Invalid language: '%s'", language)
                     found_error = True
-- 
2.43.0


From 0326f8693312bb247bcb7c5fb06fc039942e6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 065/110] fix: merging a set does not modify it

---
 lgr/tools/compare/utils.py | 2 ++
 lgr/tools/merge_set.py     | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 0375cf5..71c9503 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -39,6 +39,8 @@ def expand_ranges_in_copy(lgr):
         return lgr
 
     output = copy.deepcopy(lgr)
+    if lgr.unicode_database is not None:
+        output.unicode_database = lgr.unicode_database
     output.expand_ranges()
     return output
 
diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 9b9bfc7..110db3f 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -22,7 +22,7 @@ from collections import OrderedDict
 from lgr.exceptions import LGRFormatException, CharInvalidContextRule
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
-from lgr.tools.compare.utils import compare_objects, latest_unicode_version
+from lgr.tools.compare.utils import compare_objects, expand_ranges_in_copy, latest_unicode_version
 from lgr.parser.xml_parser import XMLParser
 from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
@@ -460,7 +460,7 @@ def merge_lgr_set(lgr_set, name):
     logger.debug("Merge %s", name)
 
     # order LGRs
-    lgr_set.sort(key=lambda x: get_script(x).replace('und-', 'zzz'))
+    lgr_set = sorted(lgr_set, key=lambda x: get_script(x).replace('und-', 'zzz'))
 
     # Ensure all unicode version are correct
     unicode_version = OrderedDict().fromkeys(lgr.metadata.unicode_version for lgr in lgr_set)
@@ -473,7 +473,7 @@ def merge_lgr_set(lgr_set, name):
     previous_scripts = []
     for lgr in lgr_set:
         script = get_script(lgr)
-        lgr.expand_ranges()
+        lgr = expand_ranges_in_copy(lgr)
 
         merge_references(lgr, script, merged_lgr, ref_mapping)
         merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts)
-- 
2.43.0


From d07e97303eb4581c0dc0b031cec4f78554b57593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 066/110] fix: only rename the rules in the actions of merged
 LGRs

---
 lgr/tools/merge_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 110db3f..24c4fda 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -173,14 +173,16 @@ def rename_action(action, action_xml, script):
         else:
             # Prefix MSR action with 'Common-'
             new_action.match = 'Common-' + action.match
-        action_xml = action_xml.replace(action.match, new_action.match)
+        action_xml = re.sub(r'(?<!-)match="{}"'.format(re.escape(action.match)),
+                            'match="{}"'.format(new_action.match), action_xml)
     if action.not_match:
         if action.not_match not in MSR_2_RULES:
             new_action.not_match = script + '-' + action.not_match
         else:
             # Prefix MSR action with 'Common-'
             new_action.not_match = 'Common-' + action.not_match
-        action_xml = action_xml.replace(action.not_match, new_action.not_match)
+        action_xml = re.sub(r'not-match="{}"'.format(re.escape(action.not_match)),
+                            'not-match="{}"'.format(new_action.not_match), action_xml)
 
     return new_action, action_xml
 
-- 
2.43.0


From ab12ff9a20fb47a10388a4c62252dec67cab4e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 067/110] fix: rename references to rules whose name starts as
 a common one when merging

---
 lgr/tools/merge_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 24c4fda..0cc7352 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -30,7 +30,7 @@ from lgr.utils import let_user_choose
 logger = logging.getLogger(__name__)
 
 MSR_2_RULES = ['leading-combining-mark']
-MSR_NEGATIVE_LOOK_AHEAD = r'(?!' + '|'.join(MSR_2_RULES) + r')'
+MSR_NEGATIVE_LOOK_AHEAD = r'(?!(?:' + '|'.join(MSR_2_RULES) + r')")'
 
 
 def get_script(lgr):
-- 
2.43.0


From e2b9ec312f228eb27d7fc3932c68b0ba9c18a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 068/110] fix: contexts on the common rules keep naming them in
 merged LGRs

---
 lgr/tools/merge_set.py | 91 ++++++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 38 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 0cc7352..8b70d30 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -316,6 +316,39 @@ def merge_classes(lgr, script, merged_lgr, ref_mapping):
         merged_lgr.classes_xml.append(merged_class_xml)
 
 
+def rename_context(rule_name, script):
+    """
+    Prefix the name of a contextual rule with script
+
+    :param rule_name: The name of the rule, possibly None
+    :param script: The LGR script
+    :return: Updated rule name
+    """
+    if not rule_name:
+        return None
+    if rule_name in MSR_2_RULES:
+        return 'Common-' + rule_name
+    return script + '-' + rule_name
+
+
+def original_context(rule_name, scripts):
+    """
+    Get the name of a contextual rule of a merged LGR in the LGRs of the set
+
+    :param rule_name: The name of the rule in the merged LGR, possibly None
+    :param scripts: The scripts that have already been processed
+    :return: The original name of the rule
+    """
+    if not rule_name:
+        return None
+    for common_rule in MSR_2_RULES:
+        if rule_name == 'Common-' + common_rule:
+            return common_rule
+    for other_script in reversed(scripts):
+        rule_name = re.sub(r'^{}-'.format(other_script), '', rule_name)
+    return rule_name
+
+
 def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
     """
     Merge chars from LGR set.
@@ -364,14 +397,13 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
 
             # add new variants to current code point
             # do not keep new_v1 as reflexive variant may have been removed
-            for v in set.difference(set(char.get_variants()), set(existing_char.get_variants())):
+            existing_variants = {(v.cp, v.when, v.not_when) for v in existing_char.get_variants()}
+            for v in char.get_variants():
+                new_when = rename_context(v.when, script)
+                new_not_when = rename_context(v.not_when, script)
+                if (v.cp, new_when, new_not_when) in existing_variants:
+                    continue
                 new_ref = [ref_mapping[script].get(x, x) for x in v.references]
-                new_when = None
-                new_not_when = None
-                if v.when:
-                    new_when = script + '-' + v.when
-                if v.not_when:
-                    new_not_when = script + '-' + v.not_when
                 merged_lgr.add_variant(existing_char.cp, v.cp, variant_type='blocked',
                                        when=new_when, not_when=new_not_when,
                                        comment=v.comment, ref=new_ref)
@@ -383,63 +415,46 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             #  - if existing cp has the same when/not-when rules (same name, content is not checked), update cp WLE with
             #    the prefix from this script
             #  - if existing cp has a different rule (not the same name), raise an exception
-            existing_when = existing_char.when
-            existing_not_when = existing_char.not_when
             # retrieve WLE names
-            for other_script in reversed(previous_scripts):
-                if existing_char.when:
-                    existing_when = re.sub(r'^{}-'.format(other_script), '', existing_when)
-                if existing_char.not_when:
-                    existing_not_when = re.sub(r'^{}-'.format(other_script), '', existing_not_when)
+            existing_when = original_context(existing_char.when, previous_scripts)
+            existing_not_when = original_context(existing_char.not_when, previous_scripts)
 
             if char.when:
                 if not existing_when:
-                    existing_char.when = script + '-' + char.when
-                elif existing_when == char.when:
+                    existing_char.when = rename_context(char.when, script)
+                elif existing_when != char.when:
+                    raise CharInvalidContextRule(char.cp, char.when)
+                elif char.when not in MSR_2_RULES:
                     existing_char.when = script + '-' + existing_char.when
                     # add a merged rule
                     matching_script = re.sub(r'-{}$'.format(existing_when), '', existing_char.when)
                     merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_when)
-                else:
-                    raise CharInvalidContextRule(char.cp, char.when)
 
             if char.not_when:
                 if not existing_not_when:
-                    existing_char.not_when = script + '-' + char.not_when
-                elif existing_not_when == char.not_when:
+                    existing_char.not_when = rename_context(char.not_when, script)
+                elif existing_not_when != char.not_when:
+                    raise CharInvalidContextRule(char.cp, char.not_when)
+                elif char.not_when not in MSR_2_RULES:
                     existing_char.not_when = script + '-' + existing_char.not_when
                     # add a merged rule
                     matching_script = re.sub(r'-{}$'.format(existing_not_when), '', existing_char.not_when)
                     merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_not_when)
-                else:
-                    raise CharInvalidContextRule(char.cp, char.not_when)
 
             continue
 
         # add new cp in LGR
-        when = None
-        not_when = None
-        if char.when:
-            when = script + '-' + char.when
-        if char.not_when:
-            not_when = script + '-' + char.not_when
-
         new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
         merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_ref,
                           tag=list(new_tags),
-                          when=when, not_when=not_when)
+                          when=rename_context(char.when, script),
+                          not_when=rename_context(char.not_when, script))
         for v in char.get_variants():
-            when = None
-            not_when = None
-            if v.when:
-                when = script + '-' + v.when
-            if v.not_when:
-                not_when = script + '-' + v.not_when
-
             new_ref = [ref_mapping[script].get(r, r) for r in v.references]
             merged_lgr.add_variant(char.cp, v.cp, variant_type='blocked',
                                    comment=v.comment, ref=new_ref,
-                                   when=when, not_when=not_when)
+                                   when=rename_context(v.when, script),
+                                   not_when=rename_context(v.not_when, script))
 
     # handle transitivity for variants that differ between scripts
     for var1_list, var2_list in new_variants:
-- 
2.43.0


From 2a07211fe12379abb8953aa3731cfe711cfc30ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 069/110] fix: citations of code points common to several LGRs
 follow the merged references

---
 lgr/tools/merge_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 8b70d30..b1c869e 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -375,7 +375,10 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # same cp already in LGR
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
             existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
-            existing_char.references = set.union(set(existing_char.references), set(char.references))
+            for ref_id in char.references:
+                new_ref = ref_mapping.get(script, {}).get(ref_id, ref_id)
+                if new_ref not in existing_char.references:
+                    existing_char.references.append(new_ref)
 
             # if 2 scripts have different variants on a character, we need to add the variants for script 1 as
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
-- 
2.43.0


From fbea488d1ea2ad2e11cfb714f2f67155ac213ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 070/110] fix: elements of rules and classes keep their own
 citations in merged LGRs

---
 lgr/tools/merge_set.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index b1c869e..6c78fb2 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -157,6 +157,18 @@ def merge_references(lgr, script, merged_lgr, ref_mapping):
                     ref_mapping[script][ref_id] = inserted_references[ref]
 
 
+def rename_citations(xml, mapping):
+    """
+    Update the references cited in the XML of an action, rule or class
+
+    :param xml: The XML
+    :param mapping: The reference id mapping from base LGR to merged LGR
+    :return: Updated XML
+    """
+    return re.sub(r'(?<!by-)ref="([^"]+)"',
+                  lambda m: 'ref="{}"'.format(" ".join(mapping.get(x, x) for x in m.group(1).split())), xml)
+
+
 def rename_action(action, action_xml, script):
     """
     Prefix action matches with script
@@ -208,7 +220,7 @@ def merge_actions(lgr, script, merged_lgr, ref_mapping):
         # Replace references in python object and XML
         new_ref = [ref_mapping.get(script, {}).get(x, x) for x in action.references]
         merged_action.references = new_ref
-        merged_action_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_action_xml)
+        merged_action_xml = rename_citations(merged_action_xml, ref_mapping.get(script, {}))
 
         merged_lgr.actions.append(merged_action)
         merged_lgr.actions_xml.append(merged_action_xml)
@@ -263,9 +275,8 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
             # MSR-2
             continue
 
-        # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in rule.references]
-        merged_rule_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_rule_xml)
+        # Replace references in XML
+        merged_rule_xml = rename_citations(merged_rule_xml, ref_mapping.get(script, {}))
 
         merged_lgr.rules.append(merged_rule_name)
         merged_lgr.rules_xml.append(merged_rule_xml)
@@ -308,9 +319,8 @@ def merge_classes(lgr, script, merged_lgr, ref_mapping):
         class_xml = lgr.classes_xml[lgr.classes.index(classe.name)]
         merged_class_name, merged_class_xml = rename_class(classe, class_xml, script)
 
-        # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in classe.references]
-        merged_class_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_class_xml)
+        # Replace references in XML
+        merged_class_xml = rename_citations(merged_class_xml, ref_mapping.get(script, {}))
 
         merged_lgr.classes.append(merged_class_name)
         merged_lgr.classes_xml.append(merged_class_xml)
-- 
2.43.0


From 780c52e63fced68f5ab78730a48c46f2fcb51aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 071/110] fix: merging several LGRs with different variants
 ends with transitive variants

---
 lgr/tools/merge_set.py | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 6c78fb2..2f2b800 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -394,22 +394,14 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
             # script 2, we need to set b as c variant and conversely). We do that after processing all code points
             # as the code point for the new variant may not be in the merged LGR in the current iteration.
-            new_v1 = set.difference(set(char.get_variants()), set(existing_char.get_variants()))
-            new_v2 = set.difference(set(existing_char.get_variants()), set(char.get_variants()))
-            # remove cp itself to avoid error with reflexive variants
-            for v in new_v1:
-                if v.cp == existing_char.cp:
-                    new_v1.remove(v)
-                    break
-            for v in new_v2:
-                if v.cp == existing_char.cp:
-                    new_v2.remove(v)
-                    break
-            if new_v1 and new_v2:
-                new_variants.append((new_v1, new_v2))
+            # Variants of the cp itself (reflexive) are not concerned.
+            reflexive = {existing_char.cp}
+            new_v1 = {v.cp for v in char.get_variants()}
+            new_v2 = {v.cp for v in existing_char.get_variants()}
+            if new_v1 - new_v2 - reflexive and new_v2 - new_v1 - reflexive:
+                new_variants.append(existing_char.cp)
 
             # add new variants to current code point
-            # do not keep new_v1 as reflexive variant may have been removed
             existing_variants = {(v.cp, v.when, v.not_when) for v in existing_char.get_variants()}
             for v in char.get_variants():
                 new_when = rename_context(v.when, script)
@@ -470,13 +462,19 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                                    not_when=rename_context(v.not_when, script))
 
     # handle transitivity for variants that differ between scripts
-    for var1_list, var2_list in new_variants:
-        for v1 in var1_list:
-            for v2 in var2_list:
-                merged_lgr.add_variant(v1.cp, v2.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
-                merged_lgr.add_variant(v2.cp, v1.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
+    for cp in new_variants:
+        # The variants of the code point are variants of one another, so are their own variants
+        variant_set = [cp]
+        for variant_cp in variant_set:
+            for v in merged_lgr.get_char(variant_cp).get_variants():
+                if v.cp not in variant_set and v.cp in merged_lgr.repertoire:
+                    variant_set.append(v.cp)
+        for cp1 in variant_set:
+            existing_variants = {v.cp for v in merged_lgr.get_char(cp1).get_variants()}
+            for cp2 in variant_set:
+                if cp2 != cp1 and cp2 not in existing_variants:
+                    merged_lgr.add_variant(cp1, cp2, variant_type='blocked',
+                                           comment='New variant for merge to keep transitivity')
 
 
 def merge_lgr_set(lgr_set, name):
-- 
2.43.0


From f07f980d90cc6e4be9280ccd52bb32684952f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 072/110] fix: merged LGRs do not get a Unicode version that
 none of the LGRs has

---
 lgr/tools/merge_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 2f2b800..f556350 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -104,6 +104,8 @@ def merge_metadata(lgr_set):
     logger.debug("Merge metadata")
 
     output = Metadata()
+    # Ignore the default Unicode version
+    output.unicode_version = None
 
     output.version = merge_version(lgr_set)
     output.description = merge_description(lgr_set)
-- 
2.43.0


From 433fe68c4df7aeca7d47fb0656b9752f3eb86f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 073/110] fix: rules merged for common code points name what is
 defined in the merged LGR

---
 lgr/tools/merge_set.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index f556350..9f5409c 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -228,18 +228,18 @@ def merge_actions(lgr, script, merged_lgr, ref_mapping):
         merged_lgr.actions_xml.append(merged_action_xml)
 
 
-def rename_rule(rule, rule_xml, script):
+def rename_rule(rule, rule_xml, script, prefix=None):
     """
     Prefix rule name or reference with script
 
     :param rule: The rule
     :param rule_xml: The rule XML
     :param script:  The LGR script
+    :param prefix: The prefix for the name of the rule, the script by default
     :return: Updated rule name, updated rule XML
     """
     if rule.name not in MSR_2_RULES:
-        new_rule_name = script + '-' + rule.name
-        rule_xml = re.sub(r'name="' + rule.name + '"', r'name="{}-{}"'.format(script, rule.name), rule_xml)
+        new_rule_name = (prefix or script) + '-' + rule.name
     else:
         # Prefix MSR rule with 'Common-'
         new_rule_name = 'Common-' + rule.name
@@ -256,7 +256,7 @@ def rename_rule(rule, rule_xml, script):
     return new_rule_name, rule_xml
 
 
-def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
+def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None, prefix=None):
     """
     Merge rules from LGR set.
 
@@ -265,6 +265,7 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
     :param merged_lgr: The merged LGR
     :param ref_mapping: The reference mapping from base LGR to new LGR
     :param specific: Merge only a specific rule
+    :param prefix: The prefix for the names of the rules, the script by default
     """
     logger.debug("Merge rules")
 
@@ -272,7 +273,7 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
         if specific and rule.name != specific:
             continue
         rule_xml = lgr.rules_xml[lgr.rules.index(rule.name)]
-        merged_rule_name, merged_rule_xml = rename_rule(rule, rule_xml, script)
+        merged_rule_name, merged_rule_xml = rename_rule(rule, rule_xml, script, prefix)
         if merged_rule_name in merged_lgr.rules:
             # MSR-2
             continue
@@ -435,7 +436,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                     existing_char.when = script + '-' + existing_char.when
                     # add a merged rule
                     matching_script = re.sub(r'-{}$'.format(existing_when), '', existing_char.when)
-                    merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_when)
+                    merge_rules(lgr, script, merged_lgr, ref_mapping, specific=existing_when, prefix=matching_script)
 
             if char.not_when:
                 if not existing_not_when:
@@ -446,7 +447,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                     existing_char.not_when = script + '-' + existing_char.not_when
                     # add a merged rule
                     matching_script = re.sub(r'-{}$'.format(existing_not_when), '', existing_char.not_when)
-                    merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_not_when)
+                    merge_rules(lgr, script, merged_lgr, ref_mapping, specific=existing_not_when, prefix=matching_script)
 
             continue
 
@@ -506,10 +507,11 @@ def merge_lgr_set(lgr_set, name):
         lgr = expand_ranges_in_copy(lgr)
 
         merge_references(lgr, script, merged_lgr, ref_mapping)
-        merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts)
         merge_actions(lgr, script, merged_lgr, ref_mapping)
         merge_rules(lgr, script, merged_lgr, ref_mapping)
         merge_classes(lgr, script, merged_lgr, ref_mapping)
+        # Code points come last as some rules may be added for them, after the ones they rely on
+        merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts)
         previous_scripts.append(script)
 
     # XXX As the created merged_lgr is not a valid Python LGR object,
-- 
2.43.0


From 4acb34cbce7a9a6fb169f1549e1aaf19273bb36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 074/110] fix: harmonized LGRs say so even if their version has
 a comment

---
 lgr/tools/harmonize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/harmonize.py b/lgr/tools/harmonize.py
index f7ca2ff..e8f8021 100644
--- a/lgr/tools/harmonize.py
+++ b/lgr/tools/harmonize.py
@@ -37,7 +37,9 @@ def harmonize(lgr_1, lgr_2, rz_lgr=None, _copy=True):
 
     for lgr in (h_lgr_1, h_lgr_2):
         if lgr.metadata.version is not None:
-            lgr.metadata.version.comment = lgr.metadata.version.comment or '' + ' - Harmonized'
+            comment = lgr.metadata.version.comment or ''
+            if not comment.endswith(' - Harmonized'):
+                lgr.metadata.version.comment = comment + ' - Harmonized'
 
     # New variants from RZ-LGR - harmonize each of the LGR with the RZ-LGR for the given script
     if rz_lgr is not None:
-- 
2.43.0


From 14d39c2cefb7803c2ec9057cd5f232318783bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 075/110] fix: variants missing for symmetry or transitivity
 are harmonized too

---
 lgr/tools/harmonize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lgr/tools/harmonize.py b/lgr/tools/harmonize.py
index e8f8021..86bc1c0 100644
--- a/lgr/tools/harmonize.py
+++ b/lgr/tools/harmonize.py
@@ -48,6 +48,10 @@ def harmonize(lgr_1, lgr_2, rz_lgr=None, _copy=True):
         rz_lgr_work = deepcopy(rz_lgr)
         harmonize(h_lgr_2, rz_lgr_work, _copy=False)
 
+    # Work on all the variants of each LGR, including those missing for symmetry and transitivity
+    populate_lgr(h_lgr_1)
+    populate_lgr(h_lgr_2)
+
     # Perform harmonization between the 2 LGRs
     lgr_1_repertoire = {c.cp for c in h_lgr_1.repertoire}
     lgr_2_repertoire = {c.cp for c in h_lgr_2.repertoire}
-- 
2.43.0


From 61bfc190c21822fda9716ae6380cc6aaf68758a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 076/110] fix: only hexadecimal digits are read as code points

---
 lgr/tools/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index 2473c9a..46dd679 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -119,11 +119,12 @@ def parse_single_cp_input(s):
         # unicode char
         return ord(s)
     else:
-        if s[:2].upper() == 'U+':
-            # U+XXXX
-            v = int(s[2:], 16)
-        else:
-            v = int(s, 16)
+        # U+XXXX or XXXX
+        digits = s[2:] if s[:2].upper() == 'U+' else s
+        # int() also accepts signs, underscores, and digits of any script
+        if not re.match(r'(0[xX])?[0-9A-Fa-f]+\Z', digits):
+            raise ValueError("invalid literal for int() with base 16: {!r}".format(digits))
+        v = int(digits, 16)
 
         # check bounds
         if v < 0 or v > 0x10FFFF:
-- 
2.43.0


From f6c1cc5e23b9fac5e6c8bbbad44299fb655c2da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 077/110] fix: the presence of code points which are not IDNA
 valid can be checked

---
 lgr/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 9dce9bf..f10d370 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -385,7 +385,11 @@ class LGR(object):
         >>> lgr.check_cp([0x0061, 0x0062])
         False
         """
-        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
+        try:
+            cp_or_sequence = self._check_convert_cp(cp_or_sequence)
+        except CharInvalidIdnaProperty:
+            # It may still be asked whether the code point is there
+            pass
         return cp_or_sequence in self.repertoire
 
     def del_cp(self, cp_or_sequence):
-- 
2.43.0


From a77f9db68924f7c1d64d870876c56af4ff7a7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 078/110] fix: ranges of code points which may not be IDNA
 valid are checked against the repertoire

---
 lgr/core.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index f10d370..8d18b70 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -478,6 +478,15 @@ class LGR(object):
                                        validating_repertoire)
         codepoints = []
         for (cp, status) in check_range:
+            if isinstance(status, CharInvalidIdnaProperty):
+                logger.error("CP '%s' is not IDNA valid", format_cp(cp))
+                if not self.raise_on_invalid_property:
+                    status = None
+                    if validating_repertoire is not None and not validating_repertoire.check_cp(cp):
+                        status = NotInRepertoire(cp)
+                elif not force:
+                    raise status
+
             if isinstance(status, NotInRepertoire):
                 logger.warning("CP '%s' is not in repertoire %s",
                                format_cp(cp), validating_repertoire)
@@ -488,12 +497,6 @@ class LGR(object):
                                    "for code point '%s'",
                                    validating_repertoire, format_cp(cp))
                     status = None
-            elif isinstance(status, CharInvalidIdnaProperty):
-                logger.error("CP '%s' is not IDNA valid", format_cp(cp))
-                if not self.raise_on_invalid_property:
-                    status = None
-                elif not force:
-                    raise status
 
             if status is None and cp in self.repertoire:
                 # The code point has been accepted but is already there
-- 
2.43.0


From 28df6adf2d74fe3930ac9a2473302eb625907e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 079/110] fix: basic collisions can be listed without TLDs

---
 lgr/tools/diff_collisions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 8785e83..89be15f 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -545,7 +545,7 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
         else:
             label_errors.append("{}: {}".format(label, error))
 
-    tlds, errors = _read_tlds(tlds_input, lgr.unicode_database)
+    tlds, errors = _read_tlds(tlds_input or [], lgr.unicode_database)
     for err in errors:
         yield err
 
-- 
2.43.0


From e1557eed36ede643e4b85a5376389a4abf333dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 080/110] fix: labels of a file can be annotated when listing
 collisions

---
 lgr/tools/diff_collisions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 89be15f..589c40d 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -532,8 +532,10 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
     from lgr.tools.annotate import annotate
 
     if with_annotations:
+        # The labels are read twice
+        labels_input = list(labels_input)
         yield "# Validity #\n\n"
-        for res in annotate(lgr, deepcopy(labels_input)):
+        for res in annotate(lgr, labels_input):
             yield res
         yield "\n"
 
-- 
2.43.0


From 7d3f5bcd101ec1cc8659ab3b635a3e9c077eb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 081/110] fix: labels whose index is already known do not
 collide with themselves

---
 lgr/tools/diff_collisions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 589c40d..414bc35 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -91,7 +91,9 @@ def _generate_indexes(lgr, labels: List, tlds=None, keep=False, quiet=False, cac
 
     _get_indexes(labels)
     if cached_indexes:
-        _get_indexes(cached_indexes, is_cache=True)
+        # a label given again does not collide with itself
+        given = set(labels)
+        _get_indexes({l: idx for l, idx in cached_indexes.items() if l not in given}, is_cache=True)
     if tlds:
         # remove labels from tlds as we do not want duplicated in label_indexes lists
         _get_indexes(tlds - set(labels), is_tld=True)
-- 
2.43.0


From fc187d9412daaa5cd0d799a934501f3cbb26f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 082/110] fix: each collision is only displayed once when more
 than two labels collide

---
 lgr/tools/diff_collisions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 414bc35..9b50daa 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -268,12 +268,10 @@ def _get_new_variants(new_labels, old_labels):
 
 def dump_collisions(colliding1, cb, colliding2=None, **kwargs):
     idx = 0
-    list2 = colliding2
     for l1 in colliding1:
         idx += 1
-        if list2 is None:
-            # do not display the same collision permuted
-            list2 = colliding1[idx:]
+        # do not display the same collision permuted
+        list2 = colliding1[idx:] if colliding2 is None else colliding2
         for l2 in list2:
             if l1 != l2:
                 yield cb(l1, l2, **kwargs)
-- 
2.43.0


From ad97f4f3a92db5f7ca9545a26e39b0dc40b6e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 083/110] fix: Japanese labels are recognized when they begin
 with a common character

---
 lgr/tools/utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index 46dd679..c8e36c9 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -290,15 +290,7 @@ def get_rz_label_script(label: str, unidb: UnicodeDatabase) -> str | None:
 
     script = unidb.get_script(label[0], alpha4=True)
 
-    if script == 'Hani':
-        script = 'Hani'
-        # We keep looking on the other characters to determine if the script can be Jpan.
-        for character in label[1:]:
-            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
-                script = 'Jpan'
-                break
-
-    elif script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
+    if script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
         # Since the first character is from the Common or Inherited
         # scripts, we keep looking to see if the rest match another one.
         for character in label[1:]:
@@ -312,6 +304,13 @@ def get_rz_label_script(label: str, unidb: UnicodeDatabase) -> str | None:
             # of Jpan.
             script = 'Jpan'
 
+    if script == 'Hani':
+        # We keep looking on the other characters to determine if the script can be Jpan.
+        for character in label[1:]:
+            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
+                script = 'Jpan'
+                break
+
     if script in ['Hira', 'Kana']:
         script = 'Jpan'
     elif script == 'Hang':
-- 
2.43.0


From 44b3a57a8a419a1016d998eb6e57909cd78aaa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 084/110] fix: the first action is also said to make a label
 invalid

---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index 6247d92..b4982e9 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -13,7 +13,7 @@ logger = logging.getLogger(__name__)
 
 def _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
     yield "%s: %s\n" % (label, disp)
-    if not eligible and action_idx > 0:
+    if not eligible and action_idx >= 0:
         yield " Rule %s: %s\n" % (action_idx, lgr.effective_actions[action_idx])
     for cp_not_in_lgr, rules in label_invalid_parts:
         yield " Code point {cp} {reason}\n".format(
-- 
2.43.0


From d6f72f9400d99abb5baf78d7037c4fa868ee31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 085/110] fix: a label only collides with the LGR set labels
 that have its index

---
 lgr/tools/annotate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index b4982e9..7f09d6c 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -82,7 +82,8 @@ def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
                 if label in filtered_set:
                     collision = 'Label is in the LGR set labels'
                 indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
-                if len(indexes) > 0:
+                # labels of the set may collide with each other
+                if any(col['label'] == label for collisions in indexes.values() for col in collisions):
                     collision = 'Label collides with the LGR set labels'
 
             out = disp
-- 
2.43.0


From 79894abe6148feaf5860745230056bdfb481b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 086/110] fix: code points in a reference sequence are only
 listed once

---
 lgr/tools/idn_review/repertoire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/repertoire.py b/lgr/tools/idn_review/repertoire.py
index 02b9400..5a11b06 100644
--- a/lgr/tools/idn_review/repertoire.py
+++ b/lgr/tools/idn_review/repertoire.py
@@ -95,7 +95,7 @@ def get_idn_cp_in_ref_seq(idn_table: LGR, reference_lgr: LGR, unidb: UnicodeData
     results = []
     for char in reference_lgr.repertoire.all_repertoire(include_sequences=True, include_ranges=False):
         if len(char) > 1:
-            for cp in char.cp:
+            for cp in sorted(set(char.cp)):
                 single_char = Char(cp)
                 if single_char not in reference_lgr.repertoire and single_char in idn_table.repertoire:
                     results.append({
-- 
2.43.0


From 82681c38cea77a27ee3d59235448adff6be44f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 087/110] fix: IDN table with a when rule does not miss the
 not-when rule of the reference LGR

---
 lgr/tools/idn_review/variant_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 42a9c05..395a57a 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -203,7 +203,7 @@ class VariantComparison:
             return self.IdnRuleCheck.DIFFERENT
         if (idn_wle['when'] or idn_wle['not-when']) and not ref_wle['when'] and not ref_wle['not-when']:
             return self.IdnRuleCheck.LESS_CONSERVATIVE
-        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when']) or ref_wle['not-when']:
+        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when'] or ref_wle['not-when']):
             return self.IdnRuleCheck.MISSING
         return self.IdnRuleCheck.DIFFERENT
 
-- 
2.43.0


From 2aaf25f5e3964bb9be3579be9de25c7a93bdd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 088/110] fix: additional code points of the variant sets
 review are those in no variant set, ranges included

---
 lgr/tools/idn_review/variant_sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 395a57a..ba2e997 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -472,8 +472,8 @@ def get_additional_codepoints(idn_table, idn_table_variant_sets, reference_lgr)
     Get code points from IDN table not in reference LGR that are not handled in the report (i.e. not in a variant set)
     """
     unidb = idn_table.unicode_database
-    variants_flat = set(zip(*[v for v in idn_table_variant_sets.values()]))
-    return cp_report(unidb, [char for char in idn_table.repertoire if
+    variants_flat = set(cp for v in idn_table_variant_sets.values() for cp in v)
+    return cp_report(unidb, [char for char in idn_table.repertoire.all_repertoire() if
                       char.cp not in variants_flat and char not in reference_lgr.repertoire])
 
 
-- 
2.43.0


From bc08dc97a44a81730b0ba693cb374b2d9662a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 089/110] fix: variant sets with common code points are
 reviewed together

---
 lgr/tools/idn_review/variant_sets.py | 60 ++++++++++++----------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index ba2e997..841e904 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -4,7 +4,6 @@
 variant_sets -
 """
 import logging
-from collections import Counter
 from enum import Enum, auto
 from typing import Dict, List, Tuple, Set
 
@@ -467,52 +466,43 @@ class VariantSetsReport:
         }
 
 
+def group_variant_sets(idn_table_variant_sets, reference_lgr_variant_sets) -> List[Tuple[Tuple, Tuple]]:
+    """
+    Put together the variant sets from IDN table and reference LGR that have some code points in common
+
+    :return: The list of IDN table code points and reference LGR code points of each group of variant sets.
+    """
+    groups = []
+    for idx, variant_sets in enumerate((idn_table_variant_sets, reference_lgr_variant_sets)):
+        for variant_set in variant_sets:
+            group = (set(), set())
+            group[idx].update(variant_set)
+            for other in [g for g in groups if not (g[0] | g[1]).isdisjoint(variant_set)]:
+                groups.remove(other)
+                group[0].update(other[0])
+                group[1].update(other[1])
+            groups.append(group)
+    return sorted(((tuple(sorted(idn_cps)), tuple(sorted(ref_cps))) for idn_cps, ref_cps in groups),
+                  key=lambda g: min(g[0] + g[1]))
+
+
 def get_additional_codepoints(idn_table, idn_table_variant_sets, reference_lgr) -> List[Dict]:
     """
     Get code points from IDN table not in reference LGR that are not handled in the report (i.e. not in a variant set)
     """
     unidb = idn_table.unicode_database
-    variants_flat = set(cp for v in idn_table_variant_sets.values() for cp in v)
+    variants_flat = set(cp for v in idn_table_variant_sets for cp in v)
     return cp_report(unidb, [char for char in idn_table.repertoire.all_repertoire() if
                       char.cp not in variants_flat and char not in reference_lgr.repertoire])
 
 
 def generate_variant_sets_report(idn_table: LGR, reference_lgr: LGR) -> Dict:
-    idn_table_variant_sets = {s[0]: s for s in idn_table.repertoire.get_variant_sets(force=True)}
-    reference_lgr_variant_sets = {s[0]: s for s in reference_lgr.repertoire.get_variant_sets(force=True)}
-
-    # if some variant sets from IDN table or Ref. LGR are included respectively in Ref. LGR or IDN table but does not
-    # have the same index, try to update the indexes to make them match
-    only_in_idn = [k for k in idn_table_variant_sets.keys() if k not in reference_lgr_variant_sets.keys()]
-    only_in_ref = [k for k in reference_lgr_variant_sets.keys() if k not in idn_table_variant_sets.keys()]
-    updated_ref_sets = Counter()
-    new_set_ids = set()
-    for idn_set_id in only_in_idn:
-        idn_cps = idn_table_variant_sets[idn_set_id]
-        for ref_set_id in only_in_ref:
-            ref_cps = reference_lgr_variant_sets[ref_set_id]
-            if set(idn_cps) <= set(ref_cps) or set(idn_cps) >= set(ref_cps):
-                new_set_id = min(idn_set_id, ref_set_id)
-                new_set_ids.add(new_set_id)
-                if new_set_id not in idn_table_variant_sets:
-                    idn_table_variant_sets[new_set_id] = idn_table_variant_sets.pop(idn_set_id)
-                if new_set_id not in reference_lgr_variant_sets:
-                    reference_lgr_variant_sets[new_set_id] = reference_lgr_variant_sets[ref_set_id]
-                    updated_ref_sets.update([ref_set_id])
-
-    # remove reference sets that were updated
-    for ref_id, count in updated_ref_sets.items():
-        if ref_id in new_set_ids:
-            continue
-        if count > 1:
-            logger.warning(f'Reference variant set {ref_id} will be duplicated as it overlaps {count} variant sets in '
-                           f'IDN table')
-        reference_lgr_variant_sets.pop(ref_id)
+    idn_table_variant_sets = idn_table.repertoire.get_variant_sets(force=True)
+    reference_lgr_variant_sets = reference_lgr.repertoire.get_variant_sets(force=True)
 
     reports = []
-    for set_id in sorted(idn_table_variant_sets.keys() | reference_lgr_variant_sets.keys()):
-        idn_table_variant_set = idn_table_variant_sets.get(set_id, ())
-        reference_lgr_variant_set = reference_lgr_variant_sets.get(set_id, ())
+    for idn_table_variant_set, reference_lgr_variant_set in group_variant_sets(idn_table_variant_sets,
+                                                                               reference_lgr_variant_sets):
         report = VariantSetsReport(idn_table_variant_set, reference_lgr_variant_set, idn_table.repertoire,
                                    reference_lgr.repertoire).to_dict()
         if report:
-- 
2.43.0


From 1d7d6e04cacb3d53d52b9d375914a2045b2db933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 090/110] fix: sequences made of code points from ranges may be
 missing from IDN table

---
 lgr/tools/idn_review/variant_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 841e904..9236a4c 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -373,7 +373,7 @@ class VariantSetsReport:
             # check if a sequence is missing
             for cp in self.reference_lgr_variant_set:
                 if len(cp) > 1:
-                    in_idn_table = set(cp) & set(char for c in self.idn_repertoire for char in c.cp)
+                    in_idn_table = set(cp) & set(char for c in self.idn_repertoire.all_repertoire() for char in c.cp)
                     if in_idn_table:
                         for c in in_idn_table:
                             idn_cp = (c,)
-- 
2.43.0


From 523db4be27a0ae205dbc5058c03d5f9ff5f0454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 091/110] fix: all the code points from ranges are taken into
 account when reviewing rules

---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 455f5a7..1b25daf 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -275,7 +275,7 @@ class WholeLabelEvaluationRuleReport:
         self.reference_lgr_rule = reference_lgr_rule
         self.idn_table_context = idn_table_context
         self.reference_lgr_context = reference_lgr_context
-        self.idn_table_repertoire = set(c.cp for c in self.idn_table.repertoire)
+        self.idn_table_repertoire = set(c.cp for c in self.idn_table.repertoire.all_repertoire())
 
     def compare_wle(self) -> Tuple[IdnReviewResult, str]:
         # compare rule regex for rule equality
@@ -366,7 +366,7 @@ class WholeLabelEvaluationRulesCheck:
         self.has_multiple_digits_sets = nbr_digits > 10
 
         if self.reference_lgr:
-            for char in self.reference_lgr.repertoire:
+            for char in self.reference_lgr.repertoire.all_repertoire():
                 if char.when:
                     self.reference_lgr_context_rules.setdefault(char.when, set()).add(char.cp)
                 if char.not_when:
-- 
2.43.0


From afd91f7b04c77739da499a5f1a07d940a52937b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 092/110] fix: all the conditional variants of a code point are
 compared

---
 lgr/tools/idn_review/variant_sets.py | 61 ++++++++++++----------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 9236a4c..7e44c12 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -64,53 +64,36 @@ class VariantData:
     def get_rev_types(self) -> str:
         return ' - '.join(sorted(c.type for c in self._rev if c.type is not None))
 
+    @staticmethod
+    def _get_conditional_type(variants: Dict[str, Variant]) -> str:
+        types = [variants[rule].type for rule in sorted(variants)]
+        if len(types) > 1:
+            return ' - '.join(str(t) for t in types)
+        return types[0] if types else ''
+
     def get_when(self) -> str:
-        for v in self.get_vars():
-            if v.when:
-                return v.when
-        return None
+        return ' - '.join(sorted(v.when for v in self.get_vars() if v.when)) or None
 
     def get_not_when(self) -> str:
-        for v in self.get_vars():
-            if v.not_when:
-                return v.not_when
-        return None
+        return ' - '.join(sorted(v.not_when for v in self.get_vars() if v.not_when)) or None
 
     def get_rev_when(self) -> str:
-        for v in self.get_rev_vars():
-            if v.when:
-                return v.when
-        return None
+        return ' - '.join(sorted(v.when for v in self.get_rev_vars() if v.when)) or None
 
     def get_rev_not_when(self) -> str:
-        for v in self.get_rev_vars():
-            if v.not_when:
-                return v.not_when
-        return None
+        return ' - '.join(sorted(v.not_when for v in self.get_rev_vars() if v.not_when)) or None
 
     def get_when_type(self) -> str:
-        for v in self.get_vars():
-            if v.when:
-                return v.type
-        return ''
+        return self._get_conditional_type({v.when: v for v in self.get_vars() if v.when})
 
     def get_not_when_type(self) -> str:
-        for v in self.get_vars():
-            if v.not_when:
-                return v.type
-        return ''
+        return self._get_conditional_type({v.not_when: v for v in self.get_vars() if v.not_when})
 
     def get_rev_when_type(self) -> str:
-        for v in self.get_rev_vars():
-            if v.when:
-                return v.type
-        return ''
+        return self._get_conditional_type({v.when: v for v in self.get_rev_vars() if v.when})
 
     def get_rev_not_when_type(self) -> str:
-        for v in self.get_rev_vars():
-            if v.not_when:
-                return v.type
-        return ''
+        return self._get_conditional_type({v.not_when: v for v in self.get_rev_vars() if v.not_when})
 
     def get_non_conditional_type(self) -> str:
         for v in self.get_vars():
@@ -179,20 +162,24 @@ class VariantComparison:
         if direction == self.Direction.FORWARD:
             idn_wle = {
                 'when': self.idn_var_data.get_when(),
-                'not-when': self.idn_var_data.get_not_when()
+                'not-when': self.idn_var_data.get_not_when(),
+                'none': self.idn_var_data.get_non_conditional_type() != ''
             }
             ref_wle = {
                 'when': self.ref_var_data.get_when(),
-                'not-when': self.ref_var_data.get_not_when()
+                'not-when': self.ref_var_data.get_not_when(),
+                'none': self.ref_var_data.get_non_conditional_type() != ''
             }
         else:
             idn_wle = {
                 'when': self.idn_var_data.get_rev_when(),
-                'not-when': self.idn_var_data.get_rev_not_when()
+                'not-when': self.idn_var_data.get_rev_not_when(),
+                'none': self.idn_var_data.get_rev_non_conditional_type() != ''
             }
             ref_wle = {
                 'when': self.ref_var_data.get_rev_when(),
-                'not-when': self.ref_var_data.get_rev_not_when()
+                'not-when': self.ref_var_data.get_rev_not_when(),
+                'none': self.ref_var_data.get_rev_non_conditional_type() != ''
             }
 
         if idn_wle == ref_wle:
@@ -238,6 +225,8 @@ class VariantComparison:
             if idn_type[r] == '' or ref_type[r] == '':
                 # '' means not applicable, None mean no type but applicable
                 continue
+            if idn_type[r] == ref_type[r]:
+                continue
             try:
                 if self.VARIANT_TYPES_ORDER.index(idn_type[r]) < self.VARIANT_TYPES_ORDER.index(ref_type[r]):
                     new_result = self.IdnTypeCheck.LESS_CONSERVATIVE
-- 
2.43.0


From 22c154ed64bb638f76ace5ad6c5c51765b91cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 093/110] fix: all the reflexive variants of a code point are
 reviewed

---
 lgr/tools/idn_review/variant_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 7e44c12..ff8a5f6 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -405,7 +405,7 @@ class VariantSetsReport:
         variants = {}
         for var in char.get_variants():
             in_lgr = True
-            if var.cp in reversed_variants.get(char.cp, []):
+            if var.cp != char.cp and var.cp in reversed_variants.get(char.cp, []):
                 continue
             var_var = []
             try:
-- 
2.43.0


From 71a4636b4c6207dd9525438f853ac2d7c883832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 094/110] fix: variant sequences out of the reference LGR
 repertoire can be reviewed

---
 lgr/tools/idn_review/variant_sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index ff8a5f6..a01a846 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -11,6 +11,7 @@ from lgr.char import Char, Variant, Repertoire
 from lgr.core import LGR
 from lgr.exceptions import NotInLGR, VariantAlreadyExists
 from lgr.tools.idn_review.utils import IdnReviewResult, cp_report
+from lgr.utils import cp_to_ulabel
 from lgr.validate import check_symmetry, check_transitivity
 
 logger = logging.getLogger(__name__)
@@ -368,7 +369,7 @@ class VariantSetsReport:
                             idn_cp = (c,)
                             if idn_cp in self.idn_repertoire:
                                 relevant_repertoire.add(idn_cp)
-                        missing_sequence = self.reference_lgr_repertoire.get_char(cp)
+                        missing_sequence = cp_to_ulabel(cp)
                         break
 
         for cp in sorted(set(self.idn_table_variant_set) | set(self.reference_lgr_variant_set)):
-- 
2.43.0


From 1c610ffab6e9cff6bd4895c2114082274ccf6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 095/110] fix: Kannada language is kn, not ka

---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 1b25daf..8370805 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -42,7 +42,7 @@ SAME_SCRIPTS = {
     'kvk': 'ko',
     'oko': 'ko',
     'okm': 'ko',
-    'ka': 'Knda',
+    'kn': 'Knda',
     'kan': 'Knda',
     'he': 'Hebr',
     'iw': 'Hebr',
-- 
2.43.0


From 35f6c159e310328c4d2a8197475a4226248d82cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 096/110] fix: labels ending with a sequence can be tested for
 general rules

---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 8370805..1e28476 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -412,6 +412,8 @@ class WholeLabelEvaluationRulesCheck:
             if isinstance(char, CharSequence):
                 if not char.is_prefix_of(label):
                     continue
+                elif len(char) == len(label):
+                    return True
                 else:
                     result |= self.check_label_cp_in_repertoire(label[len(char):])
             elif len(label) > 1:
-- 
2.43.0


From 35531acbd74e8f702dc01c8a9084e811c836db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 097/110] fix: XML LGRs can be dumped by xml_dump

---
 lgr/tools/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index c8e36c9..d5f9cde 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -423,7 +423,8 @@ class LgrToolArgParser(argparse.ArgumentParser):
     def get_unidb(self):
         if not self.args:
             self.parse_args()
-        if self.args.libs and not self.unidb:
+        # some tools do not need the ICU libraries
+        if getattr(self.args, 'libs', None) and not self.unidb:
             libpath, i18n_libpath, libver = self.args.libs.split('#')
             manager = UnicodeDataVersionManager()
             self.unidb = manager.register(None, libpath, i18n_libpath, libver)
-- 
2.43.0


From d8b6acbd03980cde9b41144dbe9a09167a2e4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 098/110] fix: ICU libraries option only declared once in
 lgr_collision

---
 tools/lgr_collision.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/lgr_collision.py b/tools/lgr_collision.py
index cbc9e16..a04ea72 100755
--- a/tools/lgr_collision.py
+++ b/tools/lgr_collision.py
@@ -35,8 +35,6 @@ def main():
     parser.add_common_args()
     parser.add_argument('-g', '--generate', action='store_true',
                         help='Generate variants')
-    parser.add_argument('-l', '--libs', metavar='LIBS',
-                        help='ICU libraries', required=True)
     parser.add_argument('-s', '--set', metavar='SET FILE',
                         help='Filepath to the set of reference labels',
                         required=True)
-- 
2.43.0


From 86b07638c860aa185c6f2742701db772ac5e5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 099/110] fix: lgr_collision goes on after a label which is not
 in the LGR

---
 tools/lgr_collision.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/lgr_collision.py b/tools/lgr_collision.py
index a04ea72..29174b2 100755
--- a/tools/lgr_collision.py
+++ b/tools/lgr_collision.py
@@ -67,7 +67,11 @@ def main():
         write_output("Check label '%s'" % label)
         label_cp = tuple([ord(c) for c in label])
         label_disp = format_cp(label_cp)
-        label_index = compute_label_index(lgr, label_cp)
+        try:
+            label_index = compute_label_index(lgr, label_cp)
+        except NotInLGR:
+            write_output("Label '%s' [%s] is not in the LGR" % (label, label_disp))
+            continue
 
         if label_index in ref_label_indexes:
             ref_label_cp = ref_label_indexes[label_index]
-- 
2.43.0


From e7d8661fc669b1530fde9781b40b254077bee6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 100/110] fix: lgr_validate can display variants

---
 tools/lgr_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lgr_validate.py b/tools/lgr_validate.py
index 44b99d1..1ba4187 100755
--- a/tools/lgr_validate.py
+++ b/tools/lgr_validate.py
@@ -84,7 +84,7 @@ def check_label(lgr, label, generate_variants=False, merged_lgr=None, set_labels
         if generate_variants:
             write_output("Variants:")
             summary, labels = lgr.compute_label_disposition_summary(label_cp)
-            for (variant_cp, var_disp, _, _, _) in labels:
+            for (variant_cp, var_disp, _, _, _, _) in labels:
                 variant_u = cp_to_ulabel(variant_cp)
                 write_output("\tVariant %s [%s]" % (variant_u, format_cp(variant_cp)))
                 write_output("\t- Disposition: '%s'" % var_disp)
-- 
2.43.0


From 73a4e75688265545ce0d6bcd53dce1e8153d04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 101/110] fix: LGR set labels are checked against the LGR set
 in lgr_validate

---
 tools/lgr_validate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/lgr_validate.py b/tools/lgr_validate.py
index 1ba4187..cf05865 100755
--- a/tools/lgr_validate.py
+++ b/tools/lgr_validate.py
@@ -117,8 +117,9 @@ def main():
                 write_output("{}: {}\n".format(label, error))
             else:
                 label_cp = tuple([ord(c) for c in label])
-                if not parser.script_lgr._test_preliminary_eligibility(label_cp)[0]:
-                    write_output("%s: Not in LGR %s\n" % label, parser.script_lgr)
+                # the labels of the set may be from any of its LGRs
+                if not parser.merged_lgr._test_preliminary_eligibility(label_cp)[0]:
+                    write_output("%s: Not in LGR %s\n" % (label, parser.merged_lgr))
                 else:
                     filtered_set_labels.append(label)
         write_output("# End of filtered set labels\n\n")
-- 
2.43.0


From 1ce40fd241cc73a5ca8bea06481cebe30716a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 102/110] fix: lgr_merge_set displays the XML of the merged LGR

---
 tools/lgr_merge_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lgr_merge_set.py b/tools/lgr_merge_set.py
index c403dd9..baf02b0 100755
--- a/tools/lgr_merge_set.py
+++ b/tools/lgr_merge_set.py
@@ -35,7 +35,7 @@ def main():
     merged_lgr, _ = merge_lgrs(args.lgr_set, name=args.name, rng=args.rng, unidb=parser.get_unidb())
     if not merged_lgr:
         return
-    print(serialize_lgr_xml(merged_lgr, pretty_print=True))
+    print(serialize_lgr_xml(merged_lgr, pretty_print=True, encoding='unicode', xml_declaration=False))
 
 
 if __name__ == '__main__':
-- 
2.43.0


From b6f3ad03cb366ea59e8825969fbe4c6e38554bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 103/110] fix: lgr_cli recognizes the first default action

---
 tools/lgr_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lgr_cli.py b/tools/lgr_cli.py
index c09c2fb..90e54be 100755
--- a/tools/lgr_cli.py
+++ b/tools/lgr_cli.py
@@ -26,7 +26,7 @@ def check_label(lgr, label, invalid, test):
     (eligible, label_parts, label_invalid_parts, disp, action_idx, logs) = lgr.test_label_eligible(label_cp)
     logger.info("- Eligible: %s", eligible)
     logger.info("- Disposition: %s", disp)
-    is_default_action = action_idx > len(lgr.actions)
+    is_default_action = action_idx >= len(lgr.actions)
     actual_index = action_idx if not is_default_action else action_idx - len(lgr.actions)
     action_name = "DefaultAction" if is_default_action else "Action"
     logger.info("- Action triggered: %s[%d]", action_name, actual_index)
@@ -54,7 +54,7 @@ def check_label(lgr, label, invalid, test):
                                                            "not in repertoire" if rules is None else ','.join(rules))
                                       for cp, rules in variant_invalid_parts)))
 
-            is_default_action = action_idx > len(lgr.actions)
+            is_default_action = action_idx >= len(lgr.actions)
             actual_index = action_idx if not is_default_action else action_idx - len(lgr.actions)
             action_name = "DefaultAction" if is_default_action else "Action"
             logger.info("\t- Action triggered: %s[%d]", action_name, actual_index)
-- 
2.43.0


From 8e1d81dc2b8f12bb91ef7cc67eadfc1c7f82c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 104/110] fix: LGRs that cannot be parsed are skipped or
 reported by the tools

---
 lgr/tools/utils.py            | 2 +-
 tools/lgr_idn_table_review.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index d5f9cde..afe9434 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -263,7 +263,7 @@ def merge_lgrs(input_lgrs, name=None, rng=None, unidb=None):
         if lgr is None:
             logger.error("Error while parsing LGR file %s." % lgr_file)
             logger.error("Please check compliance with RNG.")
-            return
+            return None, []
 
         lgr_set.append(lgr)
 
diff --git a/tools/lgr_idn_table_review.py b/tools/lgr_idn_table_review.py
index ed8f2b0..c5eb159 100755
--- a/tools/lgr_idn_table_review.py
+++ b/tools/lgr_idn_table_review.py
@@ -44,6 +44,7 @@ def main():
         ref_lgr = parse_lgr(reference_lgr_file, args.rng, unidb)
         if not ref_lgr:
             logger.error("Cannot parse LGR file %s, skip it", reference_lgr_file)
+            continue
         reference_lgrs.append(ref_lgr)
 
     idn_tables = []
@@ -52,6 +53,7 @@ def main():
         lgr = parse_lgr(idn_table, args.rng, unidb)
         if not lgr:
             logger.error("Cannot parse LGR file %s, skip it", idn_table)
+            continue
         idn_tables.append(lgr)
 
     os.makedirs(args.output, exist_ok=True)
-- 
2.43.0


From e5c50586c375d54496051ff08ced4487b8cf13c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 105/110] fix: an empty version fails its test and does not
 prevent the validation

---
 lgr/validate/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/metadata.py b/lgr/validate/metadata.py
index 504fd73..81e3449 100644
--- a/lgr/validate/metadata.py
+++ b/lgr/validate/metadata.py
@@ -74,7 +74,7 @@ def check_metadata(lgr, options):
 
     # Version
     if lgr.metadata.version is not None:
-        if not re.match(r'[1-9][0-9]*\Z', lgr.metadata.version.value):
+        if not re.match(r'[1-9][0-9]*\Z', lgr.metadata.version.value or ''):
             lgr.notify_error('metadata_version_integer')
             success = False
     lgr.notify_tested('metadata_version_integer')
-- 
2.43.0


From 36d84e16e4b8e293574191e8875fd3565c17c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 106/110] fix: identical elements of LGR sets are only dumped
 when asked for in lgr_compare

---
 tools/lgr_compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lgr_compare.py b/tools/lgr_compare.py
index 500a2ab..77df433 100755
--- a/tools/lgr_compare.py
+++ b/tools/lgr_compare.py
@@ -56,7 +56,7 @@ def main():
         if not merged_lgr_2:
             return
 
-        print(diff_lgr_sets(merged_lgr_1, merged_lgr_2, lgr_set_1, lgr_set_2))
+        print(diff_lgr_sets(merged_lgr_1, merged_lgr_2, lgr_set_1, lgr_set_2, show_same=args.generate))
     else:
         lgr1 = parse_lgr(args.first[0], args.rng)
         lgr2 = parse_lgr(args.second[0], args.rng)
-- 
2.43.0


From 2cc7cdc48d138e259322632cea187bf301cda940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 107/110] fix: elements do not share the lists of references
 and tags they are created with

---
 lgr/action.py  | 2 +-
 lgr/char.py    | 7 ++++---
 lgr/classes.py | 2 +-
 lgr/rule.py    | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lgr/action.py b/lgr/action.py
index 63caf1a..a377fd7 100644
--- a/lgr/action.py
+++ b/lgr/action.py
@@ -39,7 +39,7 @@ class Action(object):
         """
         self.disp = disp
         self.comment = comment
-        self.references = ref or []
+        self.references = list(ref or [])
         self.match = match
         self.not_match = not_match
         self.any_variant = frozenset(any_variant) if any_variant else None
diff --git a/lgr/char.py b/lgr/char.py
index 1de7577..8e5afc8 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -65,7 +65,7 @@ class Variant(object):
         self.when = when
         self.not_when = not_when
         self.comment = comment
-        self.references = ref if ref is not None else []
+        self.references = list(ref) if ref is not None else []
 
     def __unicode__(self):
         return cp_to_ulabel(self.cp)
@@ -99,8 +99,9 @@ class CharBase(object):
         assert len(cp_or_sequence), "there should be at least one char"
         self.cp = tuple(cp_or_sequence)
         self.comment = comment
-        self.references = ref if ref is not None else []
-        self.tags = tag if tag is not None else []
+        # The lists of the caller may be shared with other elements
+        self.references = list(ref) if ref is not None else []
+        self.tags = list(tag) if tag is not None else []
         self.when = when
         self.not_when = not_when
         self._variants = {}
diff --git a/lgr/classes.py b/lgr/classes.py
index 17dec44..a26b0c3 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -68,7 +68,7 @@ class Class(object):
         """
         self.name = name
         self.comment = comment
-        self.references = ref or []
+        self.references = list(ref or [])
         self.from_tag = from_tag
         self.unicode_property = unicode_property
         self.codepoints = set(codepoints or [])
diff --git a/lgr/rule.py b/lgr/rule.py
index f0c5017..e8133d8 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -36,7 +36,7 @@ class Rule(object):
         """
         self.name = name
         self.comment = comment
-        self.references = ref or []
+        self.references = list(ref or [])
         self.by_ref = by_ref
         self.children = []
         self._pattern_cache = {}
-- 
2.43.0


From 8042c1a5f47cf34ffde976d5181e3a5589b01aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 108/110] fix: validation of one code point per line tables
 succeeds

---
 lgr/parser/line_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/line_parser.py b/lgr/parser/line_parser.py
index a114ee4..ab1c4fb 100644
--- a/lgr/parser/line_parser.py
+++ b/lgr/parser/line_parser.py
@@ -25,7 +25,7 @@ class LineParser(LGRParser):
 
     def validate_document(self, schema=None):
         # No validation for now
-        return True
+        return
 
     def _parse_doc(self, rule_file):
         """
-- 
2.43.0


From 72d8f5d69a4b332ba80d502ff1eaf543755083ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:53 +0000
Subject: [PATCH 109/110] fix: modifying the scripts got from the metadata does
 not change them for others

---
 lgr/memoize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/memoize.py b/lgr/memoize.py
index 17f88a9..0150577 100644
--- a/lgr/memoize.py
+++ b/lgr/memoize.py
@@ -3,6 +3,7 @@
 memoize.py - Definition of memoize decorators.
 """
 from __future__ import unicode_literals
+import copy
 import functools
 
 
@@ -34,6 +35,7 @@ class MethodAttributeMemoizer(object):
             key = (str(func.__name__), str(getattr(obj, self.attribute_name)), str(args[1:]) + str(kwargs.items()))
             if key not in cache:
                 cache[key] = func(*args, **kwargs)
-            return cache[key]
+            # Modifying the output must not alter the cache
+            return copy.copy(cache[key])
 
         return wrapped_f
-- 
2.43.0


From 683306b7791c23425209c5860a98c9d60bf4c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:24 +0000
Subject: [PATCH 110/110] fix: merge LGRs in which several references have the
 same value

---
 lgr/tools/merge_set.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 9f5409c..a101ce3 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -159,6 +159,17 @@ def merge_references(lgr, script, merged_lgr, ref_mapping):
                     ref_mapping[script][ref_id] = inserted_references[ref]
 
 
+def map_references(references, mapping):
+    """
+    Update a list of references; references with the same value are the same reference in the merged LGR
+
+    :param references: The reference ids
+    :param mapping: The reference id mapping from base LGR to merged LGR
+    :return: Updated reference ids
+    """
+    return list(OrderedDict.fromkeys(mapping.get(x, x) for x in references))
+
+
 def rename_citations(xml, mapping):
     """
     Update the references cited in the XML of an action, rule or class
@@ -168,7 +179,7 @@ def rename_citations(xml, mapping):
     :return: Updated XML
     """
     return re.sub(r'(?<!by-)ref="([^"]+)"',
-                  lambda m: 'ref="{}"'.format(" ".join(mapping.get(x, x) for x in m.group(1).split())), xml)
+                  lambda m: 'ref="{}"'.format(" ".join(map_references(m.group(1).split(), mapping))), xml)
 
 
 def rename_action(action, action_xml, script):
@@ -220,7 +231,7 @@ def merge_actions(lgr, script, merged_lgr, ref_mapping):
         merged_action, merged_action_xml = rename_action(action, action_xml, script)
 
         # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in action.references]
+        new_ref = map_references(action.references, ref_mapping.get(script, {}))
         merged_action.references = new_ref
         merged_action_xml = rename_citations(merged_action_xml, ref_mapping.get(script, {}))
 
@@ -411,7 +422,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                 new_not_when = rename_context(v.not_when, script)
                 if (v.cp, new_when, new_not_when) in existing_variants:
                     continue
-                new_ref = [ref_mapping[script].get(x, x) for x in v.references]
+                new_ref = map_references(v.references, ref_mapping[script])
                 merged_lgr.add_variant(existing_char.cp, v.cp, variant_type='blocked',
                                        when=new_when, not_when=new_not_when,
                                        comment=v.comment, ref=new_ref)
@@ -452,13 +463,13 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             continue
 
         # add new cp in LGR
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
+        new_ref = map_references(char.references, ref_mapping.get(script, {}))
         merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_ref,
                           tag=list(new_tags),
                           when=rename_context(char.when, script),
                           not_when=rename_context(char.not_when, script))
         for v in char.get_variants():
-            new_ref = [ref_mapping[script].get(r, r) for r in v.references]
+            new_ref = map_references(v.references, ref_mapping[script])
             merged_lgr.add_variant(char.cp, v.cp, variant_type='blocked',
                                    comment=v.comment, ref=new_ref,
                                    when=rename_context(v.when, script),
-- 
2.43.0

