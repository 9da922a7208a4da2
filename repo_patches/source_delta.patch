From d28597c971072ce659607fcf741104c3ea941c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 1/6] fix: do not raise ValueError for letters without a
 Unicode name

is_latin_char() called unicodedata.name() without a default, so tagging or
parsing a token with a letter the Unicode database has no name for
(e.g. U+4DB6, U+17000) raised ValueError.
---
 pymorphy2/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index e203981..1e8eb5c 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -14,7 +14,7 @@ def is_latin_char(uchr):
     except KeyError:
         if isinstance(uchr, bytes):
             uchr = uchr.decode('ascii')
-        is_latin = 'LATIN' in unicodedata.name(uchr)
+        is_latin = 'LATIN' in unicodedata.name(uchr, '')
         return _latin_letters_cache.setdefault(uchr, is_latin)
 
 
-- 
2.43.0


From 947ac1b876bb0ff166285033f1d2c2b93ddd9383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 2/6] fix: do not recognise a token with a trailing newline as
 a Roman number

'$' also matches before a trailing newline, so 'X\n' and even '\n' were
tagged as Roman numbers.
---
 pymorphy2/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index 1e8eb5c..934c013 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -69,7 +69,7 @@ def is_punctuation(token):
 
 
 # The regex is from "Dive into Python" book.
-ROMAN_NUMBERS_RE = re.compile("""
+ROMAN_NUMBERS_RE = re.compile(r"""
     M{0,4}              # thousands - 0 to 4 M's
     (CM|CD|D?C{0,3})    # hundreds - 900 (CM), 400 (CD), 0-300 (0 to 3 C's),
                         #            or 500-800 (D, followed by 0 to 3 C's)
@@ -77,7 +77,7 @@ ROMAN_NUMBERS_RE = re.compile("""
                         #        or 50-80 (L, followed by 0 to 3 X's)
     (IX|IV|V?I{0,3})    # ones - 9 (IX), 4 (IV), 0-3 (0 to 3 I's),
                         #        or 5-8 (V, followed by 0 to 3 I's)
-    $                   # end of string
+    \Z                  # end of string
 """, re.VERBOSE | re.IGNORECASE)
 
 def is_roman_number(token, _match=ROMAN_NUMBERS_RE.match):
-- 
2.43.0


From 6d05e18d48760595f9f6b3c19dcf794aaaf76757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 3/6] fix: keep probability_estimator_cls and char_substitutes
 when pickling

MorphAnalyzer.__reduce__ dropped both options, so an unpickled analyzer
fell back to the defaults and analysed words differently.
---
 pymorphy2/analyzer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index 7c27e70..54cb93e 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -17,7 +17,15 @@ logger = logging.getLogger(__name__)
 _Parse = collections.namedtuple('Parse', 'word, tag, normal_form, score, methods_stack')
 
 _score_getter = operator.itemgetter(3)
-auto = object()
+
+
+class _Auto(object):
+    """ Type of the ``auto`` marker; pickling preserves its identity. """
+    def __reduce__(self):
+        return str('auto')
+
+
+auto = _Auto()
 
 
 class Parse(_Parse):
@@ -193,6 +201,8 @@ class MorphAnalyzer(object):
         # save arguments for pickling/unpickling
         self._path = path
         self._lang = lang
+        self._probability_estimator_cls_orig = probability_estimator_cls
+        self._char_substitutes_orig = char_substitutes
 
         if path is None and lang is None:
             lang = 'ru'
@@ -440,5 +450,6 @@ class MorphAnalyzer(object):
         return self.TagClass.lat2cyr(tag_or_grammeme)
 
     def __reduce__(self):
-        args = (self._path, self._lang, self._result_type_orig, self._units_unbound)
+        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,
+                self._probability_estimator_cls_orig, self._char_substitutes_orig)
         return self.__class__, args, None
-- 
2.43.0


From 1d6792f5fe98b8f86ffd58736d94d25e6d52aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 4/6] fix: count tag spellings after redundant grammemes are
 replaced

_simplify_tag() looks up replaces by the spelling without gen1/acc1/loc1,
but the spellings were collected with them: some duplicate spellings were
not merged, and a popular spelling with e.g. loc1 brought loc1 back.
---
 pymorphy2/opencorpora_dict/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/preprocess.py b/pymorphy2/opencorpora_dict/preprocess.py
index 7247cc5..f9c280a 100644
--- a/pymorphy2/opencorpora_dict/preprocess.py
+++ b/pymorphy2/opencorpora_dict/preprocess.py
@@ -76,7 +76,7 @@ def _get_tag_spellings(parsed_dict):
     """
     spellings = collections.defaultdict(lambda: collections.defaultdict(int))
     for tag in _itertags(parsed_dict):
-        spellings[tag2grammemes(tag)][tag] += 1
+        spellings[tag2grammemes(tag)][replace_redundant_grammemes(tag)] += 1
     return spellings
 
 
-- 
2.43.0


From 190ce1909705c8d3fba47d9532e4c4c76842681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 5/6] fix: count each ending of a short word once in prediction
 data

---
 pymorphy2/opencorpora_dict/compile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index e6a95e5..b968565 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -317,7 +317,8 @@ def _suffixes_prediction_data(words, paradigm_popularity, gramtab, paradigms, su
 
         POS = tuple(tag.replace(' ', ',', 1).split(','))[0]
 
-        for i in range(max(len(form_suffix), 1), max_suffix_length+1): #was: 1,2,3,4,5
+        max_length = min(max_suffix_length, len(word))  # don't count whole word many times
+        for i in range(max(len(form_suffix), 1), max_length+1): #was: 1,2,3,4,5
             word_end = word[-i:]
             ending_counts[word_end] += 1
             prefix_endings[form_prefix_id][word_end][POS][(para_id, idx)] += 1
-- 
2.43.0


From cbccf651b2f730106c7adfc2ef70e924062f7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:47 +0000
Subject: [PATCH 6/6] fix: numeral agreement goes by the last digits for
 negative numbers too

---
 pymorphy2/tagset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index e294a6f..9570542 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -483,6 +483,7 @@ class OpencorporaTag(object):
         return grammeme
 
     def numeral_agreement_grammemes(self, num):
+        num = abs(num)  # the digits matter, not the sign
         if (num % 10 == 1) and (num % 100 != 11):
             index = 0
         elif (num % 10 >= 2) and (num % 10 <= 4) and (num % 100 < 10 or num % 100 >= 20):
-- 
2.43.0

