From 5e704ca976ebdd3c1ab7722d9ecdcb80a6a11d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 01/12] fix: do not crash on SGR sequences with private, empty
 or oversized parameters

---
 kolombos/byteio/template/template_escape_sgr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_escape_sgr.py b/kolombos/byteio/template/template_escape_sgr.py
index dfcf912..87fa0cd 100644
--- a/kolombos/byteio/template/template_escape_sgr.py
+++ b/kolombos/byteio/template/template_escape_sgr.py
@@ -36,7 +36,12 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
         self._details_fmt_str = s.decode('ascii')
 
         params = self._details_fmt_str.split(';')
-        pcodes = [int(p.split(":")[0]) for p in params if p]
+        pcodes = []
+        for p in params:
+            try:
+                pcodes.append(int(p.split(":")[0]))
+            except ValueError:  # empty or private param (e.g. '>4' or '?25'), there is no attribute code in it
+                continue
         pcodes_allowed = []
         brief_names = []
         while len(pcodes):  # @TODO automatically set black/white text if only bg color is defined, and vice versa
-- 
2.43.0


From 33b229b88f4dc3c4ebbdbd2d813b27a595916042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 02/12] fix: keep original control character bytes when marker
 details are on

---
 kolombos/byteio/template/template_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_control.py b/kolombos/byteio/template/template_control.py
index 93727ca..785b4b0 100644
--- a/kolombos/byteio/template/template_control.py
+++ b/kolombos/byteio/template/template_control.py
@@ -40,7 +40,7 @@ class ControlCharGenericTemplate(Template):
             label_processed = self._process_byte(label_raw)
             self._substituted.append(self._create_primary_segment(
                 self._opening_seq_stack.get(self._display_mode, self._read_mode),
-                bytes(label_raw),
+                bytes([label_raw]),
                 label_processed,
             ))
             self._fill_additional_segments(label_raw)
-- 
2.43.0


From b1993ea39fa8752702d551f963fa6d67d4bda1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 03/12] fix: print trailing details and separators of the last
 line without line break

---
 kolombos/byteio/segment/buffer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kolombos/byteio/segment/buffer.py b/kolombos/byteio/segment/buffer.py
index b417ea0..bc89f68 100644
--- a/kolombos/byteio/segment/buffer.py
+++ b/kolombos/byteio/segment/buffer.py
@@ -75,7 +75,9 @@ class SegmentBuffer:
             raise EOFError
 
         if has_newline or force:
-            detached = self._detach(avail_bytes)
+            # no newline -> this is the last line, therefore remaining zero-length segments
+            # (details, separators) belong to it and have nowhere else to be printed
+            detached = self._detach(avail_bytes, exhaust=not has_newline)
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
@@ -107,7 +109,7 @@ class SegmentBuffer:
 
         return result
 
-    def _detach(self, req_bytes: int) -> List[Chainable]:
+    def _detach(self, req_bytes: int, exhaust: bool = False) -> List[Chainable]:
         self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
 
         if len(self._segment_chain) == 0:
@@ -119,7 +121,7 @@ class SegmentBuffer:
             cur_element = self._segment_chain[0]
 
             if isinstance(cur_element, Segment):
-                if req_bytes == 0:
+                if req_bytes == 0 and not exhaust:
                     break
 
                 if cur_element.data_len <= req_bytes:
@@ -134,7 +136,7 @@ class SegmentBuffer:
                     break
 
             elif isinstance(cur_element, StartSequenceRef):
-                if req_bytes == 0:
+                if req_bytes == 0 and not exhaust:
                     break
                 output.append(cur_element)
                 self._active_sgrs.append(cur_element.ref)
-- 
2.43.0


From 5a129863664e3dfca3f75a97d098d596ee6e3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 04/12] fix: always fit at least one chunk of columns in narrow
 terminals

---
 kolombos/byteio/formatter/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index a10486c..1f886cc 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -104,7 +104,7 @@ class BinaryFormatter(AbstractFormatter):
         chunk_len = (3 * self.BYTE_CHUNK_LEN) + \
                     (self.BYTE_CHUNK_LEN - 1) + \
                     len(self.PADDING_HEX_CHUNK)
-        chunk_fit = floor(available_total / chunk_len)
+        chunk_fit = max(1, floor(available_total / chunk_len))  # at least one chunk, even if terminal is too narrow
 
         result = chunk_fit * self.BYTE_CHUNK_LEN
         self._debug_buffer.write(2, f'Columns amount set to: {Spans.BOLD(result)}')
-- 
2.43.0


From 62663057968842e87e1596e2d423fa5f33aa34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 05/12] fix: treat non-positive amount of columns as auto

---
 kolombos/byteio/formatter/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index 1f886cc..74e0c75 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -33,7 +33,7 @@ class BinaryFormatter(AbstractFormatter):
 
     def format(self):
         cur_cols = self._cols
-        if cur_cols is None:
+        if cur_cols is None or cur_cols < 1:  # auto
             prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
             cur_cols = self._compute_cols_num(len(prefix_example))
 
-- 
2.43.0


From d291e1f797cf128911de9ae28f5513194848c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 06/12] fix: do not truncate offsets which are longer than the
 prefix column

---
 kolombos/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/console.py b/kolombos/console.py
index 244237d..15a0b0b 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -252,7 +252,7 @@ class Console:
 
     @staticmethod
     def format_prefix(label: str, f: Span) -> str:
-        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}.{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
+        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
         prefix = re.sub('0x', lambda m: Spans.DIM(m.group()), prefix)
         return prefix
 
-- 
2.43.0


From 3e6c3b1e2559d816ec891d5a630de4ececffd8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 07/12] fix: recognize UTF-8 sequences that follow standalone
 binary bytes

---
 kolombos/byteio/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 098859f..bb08b52 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -37,7 +37,7 @@ class Parser:
                 b'\xf4[\x80-\x8f][\x80-\xbf]{2}'       # - plane 16           # double slash in grp 4 is essential or #
                 b')|'                                                         # regex goes batshit crazy: \x5b is '[' #
                 +                                                             # # # # # # # # # # # # # # # # # # # # #
-                b'([\x80-\xff]+)|'                     # [1] BINARY DATA                                              |
+                b'([\x80-\xc1\xf5-\xff]+|[\xc2-\xf4])|'  # [1] BINARY DATA (UTF-8 lead bytes go one by one)           |
                 +                                                             # ESCAPE SEQUENCES                      |
                 b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'  # [ 2|  3-7] CSI/SGR sequences   <- - - +
                 b'((\x1b)([\x20-\x2f])([\x20-\x2f]*)([\x30-\x7e]))|'          # [ 8| 9-12] nF escape sequences
-- 
2.43.0


From b5d056c9f0f871558e9832bcc253dab84c1a8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 08/12] fix: keep sequences split between two reads until they
 are complete

---
 kolombos/byteio/parser/buffer.py |  2 +-
 kolombos/byteio/parser/parser.py | 25 ++++++++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/kolombos/byteio/parser/buffer.py b/kolombos/byteio/parser/buffer.py
index bc89d04..4f5b0ab 100644
--- a/kolombos/byteio/parser/buffer.py
+++ b/kolombos/byteio/parser/buffer.py
@@ -35,7 +35,7 @@ class ParserBuffer:
             self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')
             return
 
-        offset_delta = self._raw_buffer.find(new_buffer)
+        offset_delta = self._raw_buffer.rfind(new_buffer)
         if offset_delta == -1:
             raise RuntimeError(f'New buffer is not a part of the current one: {Console.printd(new_buffer, 32)}')
 
diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index bb08b52..e72d408 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -59,6 +59,19 @@ class Parser:
                 b'([\x21-\x7e]+)',                     # [33] printable chars (letters, digits, punctuation)
             self._substitute)
 
+        # sequence at the very end of the input that can be continued by the next input chunk
+        self.R_INCOMPLETE = re.compile(
+            b'(?:'
+            b'[\xc2-\xdf]|'                                     # UTF-8
+            b'\xe0[\xa0-\xbf]?|'
+            b'[\xe1-\xec\xee\xef][\x80-\xbf]?|'
+            b'\xed[\x80-\x9f]?|'
+            b'\xf0(?:[\x90-\xbf][\x80-\xbf]?)?|'
+            b'[\xf1-\xf3][\x80-\xbf]{0,2}|'
+            b'\xf4(?:[\x80-\x8f][\x80-\xbf]?)?|'
+            b'\x1b(?:\\x5b[\x30-\x3f]*[\x20-\x2f]*|[\x20-\x2f]+)?'  # ESCAPE SEQUENCES
+            b')\\Z')
+
         self.MGROUP_TO_TPL_MAP: Dict[int, Template|MatchResolver] = {  # @FIXME map templates to regexps
             0: self._template_registry.UTF_8_SEQ,                      #        and build F_SEPARATOR automatically?
             1: self._template_registry.BINARY_DATA,
@@ -82,20 +95,26 @@ class Parser:
         }
 
         self._offset = 0
+        self._incomplete_len = 0
         self._debug_buffer = ConsoleDebugBuffer('parser', Seqs.CYAN)
 
     def parse(self, offset: int):
         raw = self._parser_buffer.get_raw()
-        self._offset = offset
+        self._offset = offset - self._incomplete_len
         self._debug_buffer.write(1, f'Parsing segment: {Console.printd(raw)}')
 
-        unmatched = apply_filters(raw, self.F_SEPARATOR)
+        incomplete = b''
+        if not self._parser_buffer.closed and (m := self.R_INCOMPLETE.search(raw)):
+            incomplete = m.group()  # cannot be identified until there is more data
+        self._incomplete_len = len(incomplete)
+
+        unmatched = apply_filters(raw[:len(raw) - len(incomplete)], self.F_SEPARATOR)
         try:
             assert len(unmatched) == 0, f'Some bytes unprocessed: {Console.printd(unmatched)})'
         except AssertionError as e:
             raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}') from e
 
-        self._parser_buffer.crop_raw(unmatched)
+        self._parser_buffer.crop_raw(incomplete)
 
     def _substitute(self, m: Match) -> bytes:
         mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
-- 
2.43.0


From 91ce11436c78c865161380400ed5954dfd446e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:36 +0000
Subject: [PATCH 09/12] fix: keep explicitly specified sequences of a span

---
 pytermor/ansi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/ansi.py b/pytermor/ansi.py
index 416e543..363331d 100644
--- a/pytermor/ansi.py
+++ b/pytermor/ansi.py
@@ -348,7 +348,7 @@ class Span:
 
     @classmethod
     def _opt_arg(self, arg: SequenceSGR | None) -> SequenceSGR:
-        if not arg:
+        if arg is None:  # sequences have no length, so their truth value is always False
             return NOOP_SEQ
         return arg
 
-- 
2.43.0


From 54c840af581f5b442b553929cac215adaeffe6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:11 +0000
Subject: [PATCH 10/12] fix: format_auto_float exceeds required length when
 rounding adds a digit

---
 pytermor/util/auto_float.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 11c994f..cf51f3c 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -155,4 +155,11 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     # this by itself: f'{12.3:.0f}' => '12'
     dot_str = f'.{decimals_len!s}'
 
-    return f'{sign}{abs_value:{req_len}{dot_str}f}'
+    result = f'{abs_value:{req_len}{dot_str}f}'
+    if len(result) > req_len:
+        # rounding up has added a digit to the integer
+        # part, e.g. req_len = 4, abs_value = 99.96
+        #      => should be displayed as ' 100', not '100.0'
+        result = f'{abs_value:{req_len}.{max(0, decimals_len - 1)}f}'
+
+    return f'{sign}{result}'
-- 
2.43.0


From 571cd13641e09c78bdd6f72580ebca599542192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:11 +0000
Subject: [PATCH 11/12] fix: format_auto_float takes wrong exponent just below
 powers of ten and for subnormals

---
 pytermor/util/auto_float.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index cf51f3c..27e60df 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -8,7 +8,8 @@
     from pytermor.util.auto_float import format_auto_float
 
 """
-from math import trunc, log10, floor
+from decimal import Decimal
+from math import trunc
 
 
 _OVERFLOW_CHAR = '!'
@@ -74,7 +75,8 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     if value == 0.0:
         return f'{sign}{0:{req_len}.0f}'
 
-    exponent = floor(log10(abs_value))
+    # binary log10() is off by one just below the powers of ten
+    exponent = Decimal(abs_value).adjusted()
     exp_threshold_left = -2
     exp_threshold_right = req_len - 1
 
@@ -121,7 +123,7 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
             # there is no place even for exponent
             return _OVERFLOW_CHAR * (len(sign) + req_len)
 
-        significand = abs_value/pow(10, exponent)
+        significand = Decimal(abs_value).scaleb(-exponent)
         max_significand_len = req_len - exponent_len
         try:
             # max_significand_len can be 0, in that case significand_str will be empty; that
-- 
2.43.0


From d6a2a10f50052ec81f9abab0639adc6882da1929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:26 +0000
Subject: [PATCH 12/12] fix: automatically chosen number of columns changes in
 the middle of output when offsets get longer

---
 kolombos/byteio/formatter/binary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index 74e0c75..6fbb2e7 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -36,6 +36,7 @@ class BinaryFormatter(AbstractFormatter):
         if cur_cols is None or cur_cols < 1:  # auto
             prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
             cur_cols = self._compute_cols_num(len(prefix_example))
+            self._cols = cur_cols  # rows should stay aligned even when the prefix gets longer
 
         req_bytes = cur_cols
         if self._parser_buffer.closed:
-- 
2.43.0

