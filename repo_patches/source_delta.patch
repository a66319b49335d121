From 722cb93a4681c18c0153ebba8aceaf7441f9e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 01/35] fix: import GCode from the package in gcode_tempcal

The implicit relative import does not exist on Python 3, so neither the
gcode_tempcal command nor the Cura plugin could start.
---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index a8cee66..46712ad 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -10,7 +10,7 @@ import sys
 
 __author__ = 'Olivier Jolly <olivier@pcedev.com>'
 
-from gcoder import GCode  # pylint: disable=relative-import
+from gcodeutils.gcoder import GCode
 
 
 class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
-- 
2.43.0


From ef27a904e13d56848e209bf971de0e48b44e91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 02/35] fix: read the number of steps of gcode_tempcal as an
 integer

Without a type the option stays a string and computing with it fails.
---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 46712ad..9be7962 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -168,7 +168,7 @@ def main():
                                      help='Switch to a continuous gradient generation where temperature is recomputed '
                                           'for every layer. You may want this in the case of very precise and fast '
                                           'hotend. Defaults to discrete temperature gradient divided in X steps.')
-    temperature_control.add_argument('--steps', '-s', default=10,
+    temperature_control.add_argument('--steps', '-s', type=int, default=10,
                                      help='Number of steps used to create a discrete gradient when using the default '
                                           'gradient generation model. Defaults to %(default)s steps. This setting is '
                                           'not used when using the continuous gradient generation model.')
-- 
2.43.0


From 408d4e77b1a29e6eb66f5d117cc2cbffd156e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 03/35] fix: round the stepped temperature down to a step and
 bound it on both sides

Since true division was imported the step progress is not floored any more,
so the stepped gradient was continuous; a falling gradient was only limited
by the start temperature and so went below the end temperature.
---
 gcodeutils/gcode_tempcal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 9be7962..3dbac48 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -135,10 +135,12 @@ class GCodeStepTempGradient(GCodeTempGradient):
         self.steps += 1
 
         self.max_temp = max(self.end_temp, self.start_temp)
+        self.min_temp = min(self.end_temp, self.start_temp)
 
     def get_temp_for_current_layer(self):
-        progress = float(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps) / self.steps
-        return min(self.max_temp, self.start_temp + progress * (self.step_end_temp - self.start_temp))
+        progress = float(int(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps)) / self.steps
+        return max(self.min_temp,
+                   min(self.max_temp, self.start_temp + progress * (self.step_end_temp - self.start_temp)))
 
 
 def main():
-- 
2.43.0


From 57f995f301c4daaacf4de6c17788b0bbac28aecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 04/35] fix: start the temperature gradient above the minimum
 height

The first layer was always taken as the start, whatever its height, so
temperatures were changed at or below the minimum height.
---
 gcodeutils/gcode_tempcal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 3dbac48..45685a7 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -57,8 +57,8 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
                 # Keep the lowest Z which is above the minimum height (used to keep the slicer first layers
                 # temperature for adhesion)
-                if self.zmin is None or (
-                                current_z is not None and self.min_z_change < current_z < self.zmin):
+                if current_z is not None and self.min_z_change < current_z and (
+                                self.zmin is None or current_z < self.zmin):
                     self.zmin = current_z
 
         # Make sure that the sliced model is high enough to be usable
-- 
2.43.0


From 80c77b8d7e4d08522b220f79a21d144727d15981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 05/35] fix: do not take G92 E0 as a position setting without
 coordinates when translating

---
 gcodeutils/filter/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/translate.py b/gcodeutils/filter/translate.py
index 2e1ed0f..5c9e75c 100644
--- a/gcodeutils/filter/translate.py
+++ b/gcodeutils/filter/translate.py
@@ -57,7 +57,7 @@ class GCodeXYTranslateFilter(GCodeFilter):
             return
 
         if opcode.command == GCODE_SET_POSITION_COMMAND:
-            if opcode.x is None and opcode.y is None and opcode.z is None:
+            if opcode.x is None and opcode.y is None and opcode.z is None and opcode.e is None:
                 # no coordinate given is equivalent to all 0
                 opcode.x = - self.translate_x
                 opcode.y = - self.translate_y
-- 
2.43.0


From e3ce77c186febb480b44ba03c83c779ed0cdd9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 06/35] fix: keep the trailing comment when regenerating the
 text of a line

The stretch filters find perimeters through these comments, so converting to
relative extrusion first made stretching Slic3r programs a no-op.
---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5041308..22709ba 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -168,7 +168,8 @@ def unsplit(line):
         if getattr(line, bit) is not None:
             format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
             arg += [bit.upper(), getattr(line, bit)]
-    line.raw = line.command + format.format(*arg)
+    comment = line.raw[line.raw.index(";"):] if line.raw and ";" in line.raw else ""
+    line.raw = line.command + format.format(*arg) + (" " + comment if comment else "")
 
 
 def parse_coordinates(line, split_raw, imperial=False, force=False):
-- 
2.43.0


From 48cb05a870505c3a04b0e37e4aea2d2bddc835ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 07/35] fix: compare programs up to their last line

zip() drops one line of the first program when the second one is shorter, so
a program was equal to itself followed by one more line.
---
 gcodeutils/gcoder.py | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 22709ba..66d0879 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -24,6 +24,11 @@ from array import array
 
 import re
 
+try:
+    from itertools import zip_longest
+except ImportError:
+    from itertools import izip_longest as zip_longest
+
 gcode_parsed_args = ["x", "y", "e", "f", "z", "i", "j"]
 gcode_parsed_nonargs = ["g", "t", "m", "n"]
 to_parse = "".join(gcode_parsed_args + gcode_parsed_nonargs)
@@ -797,24 +802,16 @@ class GCode(object):
         meaningful_lines1 = self.comment_stripper_generator()
         meaningful_lines2 = other.comment_stripper_generator()
 
-        for line_number, (l1, l2) in enumerate(zip(meaningful_lines1, meaningful_lines2)):
+        for line_number, (l1, l2) in enumerate(zip_longest(meaningful_lines1, meaningful_lines2)):
+            if l2 is None:
+                return "Remaining line(s) for self: '{}'".format(l1)
+            if l1 is None:
+                return "Remaining line(s) for other: '{}'".format(l2)
             # checking the raw representation of lines is a bit naive
             # that will have to evolve as required
             if l1 != l2:
                 return "First difference after {} meaningful lines: '{}' vs '{}' ".format(line_number, l1.raw, l2.raw)
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            l1 = next(meaningful_lines1)
-            return "Remaining line(s) for self: '{}'".format(l1)
-        except StopIteration:
-            try:
-                l2 = next(meaningful_lines2)
-                return "Remaining line(s) for other: '{}'".format(l2)
-            except StopIteration:
-                pass
-
         return None
 
     def __eq__(self, other):
@@ -824,23 +821,12 @@ class GCode(object):
         meaningful_lines1 = self.comment_stripper_generator()
         meaningful_lines2 = other.comment_stripper_generator()
 
-        for l1, l2 in zip(meaningful_lines1, meaningful_lines2):
+        for l1, l2 in zip_longest(meaningful_lines1, meaningful_lines2):
             # checking the raw representation of lines is a bit naive
             # that will have to evolve as required
             if l1 != l2:
                 return False
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            next(meaningful_lines1)
-            return False
-        except StopIteration:
-            try:
-                next(meaningful_lines2)
-                return False
-            except StopIteration:
-                pass
         return True
 
     def comment_stripper_generator(self):
-- 
2.43.0


From c3b0b625f2f092215f8e2e6cf96f4947a5784a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 08/35] fix: number a visited layer by its place in the program

list.index() finds the first layer with equal lines, which is another layer
when two layers have the same commands.
---
 gcodeutils/visit/iterator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 78757ae..03265b4 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -46,8 +46,7 @@ class GCodeIterator(object):
         parsed_layer_number = 0
         parsed_line_number = 0
 
-        for parsed_layer in self.__gcode.all_layers:
-            layer_index = self.__gcode.all_layers.index(parsed_layer)
+        for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
             try:
                 layer_z = round(parsed_layer.z, self.__digits_of_precision)
                 layer_number = self.__all_zs.index(layer_z)
-- 
2.43.0


From 0bbba68a9009a152fefc7563e1aed83b6aff9e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 09/35] fix: walk programs that extrude before any height is
 known

---
 gcodeutils/visit/iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 03265b4..0202d71 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -35,7 +35,7 @@ class GCodeIterator(object):
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
         self.__all_zs = sorted(
-            [round(z, self.__digits_of_precision) for z in self.__gcode.all_zs]
+            [round(z, self.__digits_of_precision) for z in self.__gcode.all_zs if z is not None]
         )
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
-- 
2.43.0


From e66a4225f7f3c9d550eff7aa2e6009c7e9a92a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 10/35] fix: pause once per layer number

A layer split by a travel lift came up several times and got a pause each time.
---
 gcodeutils/visit/pause_at_layer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/visit/pause_at_layer.py b/gcodeutils/visit/pause_at_layer.py
index bd0993e..18a0f19 100644
--- a/gcodeutils/visit/pause_at_layer.py
+++ b/gcodeutils/visit/pause_at_layer.py
@@ -16,15 +16,22 @@ class PauseAtLayer(GCodeVisitor):
 
     def __init__(self, pause_layer_list):
         self.__pause_layer_list = pause_layer_list
+        self.__paused_gcode = None
+        self.__paused_layers = set()
 
     def did_visit_layer(self, layer_as_pyline_list, gcode_iterator_info):
         """Inserts a pause command if the layer matches the list
         """
+        gcode = gcode_iterator_info.gcode
+        if gcode is not self.__paused_gcode:
+            self.__paused_gcode = gcode
+            self.__paused_layers = set()
+        layer_number = gcode_iterator_info.layer_number
         is_printed = gcode_iterator_info.is_printed
-        is_pause_layer = gcode_iterator_info.layer_number in self.__pause_layer_list
+        is_pause_layer = layer_number in self.__pause_layer_list and layer_number not in self.__paused_layers
         should_pause = is_printed and is_pause_layer
         if should_pause:
-            gcode = gcode_iterator_info.gcode
+            self.__paused_layers.add(layer_number)
             layer_index = gcode_iterator_info.layer_index
             commands_to_prepend = [PAUSE_COMMAND]
             gcode.prepend_to_layer(commands_to_prepend, layer_index)
-- 
2.43.0


From a5955d78a942a16e2636d861d4fa4fea4f885e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 11/35] fix: count moves made in relative extrusion mode
 towards the logical E position

Otherwise the first absolute move after them was converted to a wrong amount.
---
 gcodeutils/filter/relative_extrusion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcodeutils/filter/relative_extrusion.py b/gcodeutils/filter/relative_extrusion.py
index e083a50..dafd602 100644
--- a/gcodeutils/filter/relative_extrusion.py
+++ b/gcodeutils/filter/relative_extrusion.py
@@ -32,6 +32,10 @@ class GCodeToRelativeExtrusionFilter(GCodeFilter):
 
             return
 
+        if opcode.command in move_gcodes and self.relative_extrusion and opcode.e is not None:
+            self.current_extrusion_distance += Decimal(opcode.e)
+            return
+
         if opcode.command in move_gcodes and not self.relative_extrusion and opcode.e is not None:
             # we're extruding while in absolute extrusion mode, reduce by the amount extruded so far
             # and keep track of the current e for later reuse
-- 
2.43.0


From 43261aefa2cd2d723a8ccc74299b5d825f63bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 12/35] fix: read Cura profiles on Python 3 and when markers
 were appended to their line

The decompressed profile is bytes, and the greedy expression took appended
comments as part of the encoded profile.
---
 gcodeutils/stretch/stretch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 2d5464e..3115758 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -625,7 +625,7 @@ class CuraStretchFilter(StretchFilter):
     EXTERNAL_PERIMETER = 1
     EXTRA_PERIMETER = 2
 
-    CURA_PROFILE_REGEXP = re.compile(r';CURA_PROFILE_STRING:(.*)$')
+    CURA_PROFILE_REGEXP = re.compile(r';CURA_PROFILE_STRING:(\S*)')
 
     def __init__(self, **kwargs):
         StretchFilter.__init__(self, **kwargs)
@@ -713,7 +713,7 @@ class CuraStretchFilter(StretchFilter):
             self.set_edge_width(0.4)
 
     def parse_cura_profile(self, cura_profile):
-        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).split('\f', 1)
+        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).decode('utf-8').split('\f', 1)
         for option in profileOpts.split('\b'):
             if len(option) > 0:
                 key, value = option.split('=', 1)
-- 
2.43.0


From 1c5415a72d4b10991102058c89c89f9ce72376ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 13/35] fix: keep the feed rate word of stretched moves

A move without F was given the last feed rate, or 959 before any was seen.
---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 3115758..fad11ab 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -431,7 +431,7 @@ class StretchFilter:
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
         result.z = original_line.z
-        result.f = self.feedRateMinute
+        result.f = original_line.f
 
         # TODO improve new extrusion length computation. It's clearly a very rough estimate
         if original_line.e is not None:
-- 
2.43.0


From a8dbfc388519597fda587c8a7ff193583991a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 14/35] fix: default edge width for Skeinforge programs that
 state none

---
 gcodeutils/stretch/stretch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index fad11ab..a11ea2b 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -745,6 +745,8 @@ class SkeinforgeStretchFilter(StretchFilter):
         return False
 
     def setup_filter(self):
+        self.set_edge_width(0.4)
+
         for self.current_layer in self.gcode.all_layers:
             for line in self.current_layer:
                 self.parse_initialisation_line(line)
-- 
2.43.0


From 77021fb5db6fd4072eee8c8146e0c2b99884aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 15/35] fix: send stretch diagnostics to the log instead of
 standard output

Standard output carries the modified program by default.
---
 gcodeutils/stretch/stretch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index a11ea2b..3a19c8e 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -148,7 +148,7 @@ class LineIteratorForwardLegacy(object):
         for lineIndex in xrange(self.line_index - 1, 0, - 1):
             if StretchFilter.EXTRUSION_ON_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
     def index_in_valid_range(self):
@@ -200,7 +200,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -211,7 +211,7 @@ class LineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -230,7 +230,7 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -249,7 +249,7 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -272,7 +272,7 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 1
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
-- 
2.43.0


From 762523b18d68c35df252f8704fabb6d7087c4640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 16/35] fix: index of an appended line in its layer

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 66d0879..41d75f5 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -402,7 +402,7 @@ class GCode(object):
             self.lines.append(gline)
             self.append_layer.append(gline)
             self.layer_idxs.append(self.append_layer_id)
-            self.line_idxs.append(len(self.append_layer))
+            self.line_idxs.append(len(self.append_layer) - 1)
         return gline
 
     def _preprocess(self, lines=None, build_layers=False,
-- 
2.43.0


From 39a47da778ca653abb4fd78f482c766b27e691b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 17/35] fix: G92 E sets the logical E position without
 extruding

The new value was used as an offset for later absolute moves and the position
was left alone, so after G92 E0 the next move counted as a retraction.
---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 41d75f5..0f6153c 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -570,7 +570,8 @@ class GCode(object):
                         max_e = max(max_e, total_e)
                         cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
-                        offset_e = line.e #current_e - line.e
+                        current_e = line.e
+                        offset_e = 0
                 line.current_e = current_e
                 # # Create layers and perform global computations
                 if build_layers:
-- 
2.43.0


From 39aadafec72618d91b696950fa9e29d0f10e025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 18/35] fix: home only the axes named by G28, whatever their
 value

G28 X0 and G28 X homed all axes.
---
 gcodeutils/gcoder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 0f6153c..64ee446 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -534,14 +534,15 @@ class GCode(object):
                     if z is not None: current_z = z
 
                 elif line.command == "G28":
-                    home_all = not any([line.x, line.y, line.z])
-                    if home_all or line.x is not None:
+                    home_axes = [bit[0] for bit in split_raw if bit[0] in ('x', 'y', 'z')]
+                    home_all = not home_axes
+                    if home_all or 'x' in home_axes:
                         offset_x = 0
                         current_x = self.home_x
-                    if home_all or line.y is not None:
+                    if home_all or 'y' in home_axes:
                         offset_y = 0
                         current_y = self.home_y
-                    if home_all or line.z is not None:
+                    if home_all or 'z' in home_axes:
                         offset_z = 0
                         current_z = self.home_z
 
-- 
2.43.0


From 74a4c5d45e022a33c4db089adbdcff197b436ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 19/35] fix: do not fail on malformed numbers when parsing

---
 gcodeutils/gcoder.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 64ee446..74f18fe 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -130,7 +130,10 @@ def find_specific_code(line, code):
     if not bits:
         return None
     else:
-        return float(bits[0][1:])
+        try:
+            return float(bits[0][1:])
+        except ValueError:
+            return None
 
 
 def S(line):
@@ -187,7 +190,10 @@ def parse_coordinates(line, split_raw, imperial=False, force=False):
     for bit in split_raw:
         code = bit[0]
         if code not in gcode_parsed_nonargs and bit[1]:
-            setattr(line, code, unit_factor * float(bit[1]))
+            try:
+                setattr(line, code, unit_factor * float(bit[1]))
+            except ValueError:
+                logging.warning("malformed number in G-Code line \"%s\"" % line.raw)
 
 
 class Layer(list):
@@ -506,7 +512,10 @@ class GCode(object):
                 elif line.command == "M83":
                     relative_e = True
                 elif line.command[0] == "T":
-                    current_tool = int(line.command[1:])
+                    try:
+                        current_tool = int(line.command[1:])
+                    except ValueError:
+                        logging.warning("malformed tool number in G-Code line \"%s\"" % line.raw)
 
                 if line.command[0] == "G":
                     parse_coordinates(line, split_raw, imperial)
-- 
2.43.0


From 406f5a6d988bf725a5adeb8347b62a044ae68900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 20/35] fix: do not fail on feed rates and durations out of
 range when estimating the duration

---
 gcodeutils/gcoder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 74f18fe..5007719 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -650,7 +650,7 @@ class GCode(object):
                                 moveduration = 2 * distance / (lastf + f)  # This is distance / mean(lastf, f)
                                 moveduration += (currenttravel - distance) / f
                             else:
-                                moveduration = 2 * currenttravel / (lastf + f)  # This is currenttravel / mean(lastf, f)
+                                moveduration = 2 * currenttravel / (lastf + f) if lastf + f != 0 else 0.  # This is currenttravel / mean(lastf, f)
                                 # FIXME: probably a little bit optimistic, but probably a much better estimate than the previous one:
                                 # moveduration = math.sqrt(2 * distance / acceleration) # probably buggy : not taking actual travel into account
 
@@ -791,7 +791,10 @@ class GCode(object):
             self.height = self.zmax - self.zmin
 
             # Finalize duration
-            totaltime = datetime.timedelta(seconds=int(totalduration))
+            try:
+                totaltime = datetime.timedelta(seconds=int(totalduration))
+            except (OverflowError, ValueError):
+                totaltime = datetime.timedelta.max
             self.duration = totaltime
 
     def idxs(self, i):
-- 
2.43.0


From 7cdd9acbeb6df1768a283feac5edeb75d3ad6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 21/35] fix: do not truncate the file before the temperature
 gradient is computed

A refused program was left empty.
---
 cura_plugins/tempcal_plugin.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cura_plugins/tempcal_plugin.py b/cura_plugins/tempcal_plugin.py
index 3763db5..07af91c 100644
--- a/cura_plugins/tempcal_plugin.py
+++ b/cura_plugins/tempcal_plugin.py
@@ -11,6 +11,7 @@
 # just copy gcodeutils into the plugins directory instead of installing it
 # no twinkles for you, ultimaker
 import sys
+from io import StringIO
 sys.path.append('plugins')
 
 from gcodeutils.gcode_tempcal import GCodeStepTempGradient
@@ -19,6 +20,9 @@ from gcodeutils.gcoder import GCode
 with open(filename, 'r') as gcode_file:  # pylint: disable=undefined-variable
     gcode = GCode(gcode_file)  # pylint: disable=redefined-outer-name,invalid-name
 
+modified_gcode = StringIO()
+GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
+                      steps=steps).write(modified_gcode)
+
 with open(filename, 'w') as gcode_file:  # pylint: disable=undefined-variable
-    GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
-                          steps=steps).write(gcode_file)
+    gcode_file.write(modified_gcode.getvalue())
-- 
2.43.0


From ebb568e5379925c163c7cedddf964dc5957ff79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 22/35] fix: stop looking around in a loop at the first line
 seen twice

When a jump to the loop limit never came back to the first line, the search
went on forever.
---
 gcodeutils/stretch/stretch.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 3a19c8e..80ab1c9 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -130,9 +130,8 @@ class LineIteratorForwardLegacy(object):
     logger = logging.getLogger('iterator')
 
     def __init__(self, line_index, lines):
-        self.first_visited_index = None
+        self.visited_indexes = set()
         self.line_index = line_index
-        self.first_visited_index = None
         self.lines = lines
         self.increment = 1
         self.stop_on_extrusion_off = True
@@ -161,11 +160,10 @@ class LineIteratorForwardLegacy(object):
 
         while self.index_in_valid_range():
 
-            if self.line_index == self.first_visited_index:
+            if self.line_index in self.visited_indexes:
                 self.logger.debug("infinite looping detected")
                 raise StopIteration("You've reached the end of the line.")
-            if self.first_visited_index is None:
-                self.first_visited_index = self.line_index
+            self.visited_indexes.add(self.line_index)
 
             line = self.lines[self.line_index]
             if StretchFilter.EXTRUSION_OFF_MARKER in line.raw and self.stop_on_extrusion_off:
-- 
2.43.0


From c9cf713671de8d9fd20cceea8d98f8e5617656fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 23/35] fix: do not look for markers outside of the layer

Iterating from its last line failed instead of reporting the end.
---
 gcodeutils/stretch/stretch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 80ab1c9..4b43d7b 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -219,7 +219,7 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
         self.stop_on_extrusion_off = False
 
     def index_setup(self):
-        if StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
+        if self.index_in_valid_range() and StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
@@ -236,7 +236,8 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
     def index_setup(self):
         if self.line_index < 0:
             self.line_index = self.reset_index_on_limit()
-        elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
+        elif self.line_index + 1 < len(self.lines) \
+                and StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
@@ -259,7 +260,8 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
     def index_setup(self):
         if self.line_index < 0:
             self.line_index = self.reset_index_on_limit()
-        elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
+        elif self.line_index + 1 < len(self.lines) \
+                and StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
-- 
2.43.0


From 76bd4d77e5daa80ee73ede928aa3ebe536094618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 24/35] fix: buffer for the temperature plugin on Python 2

---
 cura_plugins/tempcal_plugin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cura_plugins/tempcal_plugin.py b/cura_plugins/tempcal_plugin.py
index 07af91c..02117d5 100644
--- a/cura_plugins/tempcal_plugin.py
+++ b/cura_plugins/tempcal_plugin.py
@@ -11,7 +11,10 @@
 # just copy gcodeutils into the plugins directory instead of installing it
 # no twinkles for you, ultimaker
 import sys
-from io import StringIO
+try:
+    from StringIO import StringIO
+except ImportError:
+    from io import StringIO
 sys.path.append('plugins')
 
 from gcodeutils.gcode_tempcal import GCodeStepTempGradient
-- 
2.43.0


From 3cecf9414f751503ddca93cb494cf1935d6a71ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 25/35] fix: do not fail on a comment in front of the first
 queued move

Its position is unknown, so it cannot start an arc.
---
 gcodeutils/filter/arc_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 680682d..5ac27c6 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -333,7 +333,9 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :param opcode: the opcode
         :return: the resulting opcode or a list of resulting opcodes
         """
-        if opcode.command is None and len(self.queue) > 0:
+        if opcode.command is None:
+            if len(self.queue) == 0:
+                return None
             opcode.current_x  =self.queue[-1].current_x
             opcode.current_y = self.queue[-1].current_y
             opcode.current_z = self.queue[-1].current_z
-- 
2.43.0


From 70a3d18071c2cab5ebbbe81b069b80618a50072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 26/35] fix: replace only straight moves by an arc

Comments inside a run of moves without extrusion and arcs were swallowed.
---
 gcodeutils/filter/arc_optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 5ac27c6..3b9e8d4 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -11,7 +11,7 @@ import logging
 from math import sqrt, sin
 import cmath
 from gcodeutils.filter.filter import GCodeFilter
-from gcodeutils.gcoder import Line, move_gcodes, unsplit
+from gcodeutils.gcoder import Line, linear_move_gcodes, move_gcodes, unsplit
 
 __author__ = 'Eyck Jentzsch <eyck@jepemuc.de>'
 
@@ -257,6 +257,9 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         check if entries in the queue constitute a valid circle
         :return: a tuple consisting of the bool indication an erroneous circle and the estimated circle
         """
+        # only straight moves can be replaced, comments and arcs have to be kept
+        if not all([line.command in linear_move_gcodes for line in self.queue[1:]]):
+            return True, None
         # check from 1 as idx 0 indicates the move to the start point
         all_e = False if self.queue[1].e is None else True
         cur_f = self.queue[1].current_f
-- 
2.43.0


From d8ba331bf3784745e433cdf940af24500e4297a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 27/35] fix: do not replace a run that starts at another height

The height change of its first move was lost.
---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 3b9e8d4..8e164bc 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -267,7 +267,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         valid_e = all([line.e is not None for line in self.queue[1:]]) if all_e else \
             not any([line.e is not None for line in self.queue[1:]])
         valid_f = all([line.current_f == cur_f for line in self.queue[1:]])
-        valid_z = all([line.current_z == cur_z for line in self.queue[1:]])
+        valid_z = all([line.current_z == cur_z for line in self.queue])
         if not (valid_e and valid_f and valid_z):
             return True, None
         if all_e:
-- 
2.43.0


From 1ce66bcf56fd4f9e6f96fe82ff32e79cbcd09bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 28/35] fix: do not fail on points in line and on moves without
 length

---
 gcodeutils/filter/arc_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 8e164bc..55a56a9 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -147,7 +147,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             svuu += pt.y * pt.x * pt.x
         if suu < EPSILON or svv < EPSILON:
             return None
-        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / (((-(suv * suv)) / suu) + svv)
+        divisor = ((-(suv * suv)) / suu) + svv
+        if abs(divisor) < EPSILON:
+            return None
+        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / divisor
         u = (((suuu + suvv) / 2) - (v * suv)) / suu
         # calculate direction
         center = Point(x=u + xbar, y=v + ybar)
@@ -249,7 +252,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             prev = line
         extrusions['avg']['filament'] = extrusions['total']['filament'] / len(self.queue)
         extrusions['avg']['path'] = extrusions['total']['path'] / len(self.queue)
-        extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
+        if extrusions['total']['path'] >= EPSILON:
+            extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
         return extrusions
 
     def queue_valid(self):
-- 
2.43.0


From ae9ad99ce1b3ee656650b873c2607a1d4af26595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 29/35] fix: convert runs of moves without extrusion to arcs
 without extrusion

Computing the extrusion of such an arc failed.
---
 gcodeutils/filter/arc_optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 55a56a9..0283dea 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -294,7 +294,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         count = len(self.queue)
         end_point = self.queue[-1]
         error, circle = self.get_circle()
-        extrusions = self.get_distances()
+        extrusions = self.get_distances() if end_point.e is not None else None
         op1 = Line()
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
@@ -302,7 +302,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.y = round(circle.end.y, 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
-        if end_point.relative_e:
+        if end_point.e is None:
+            # travel move, nothing to extrude
+            op1.relative_e = end_point.relative_e
+        elif end_point.relative_e:
             # calculate extrusion correction
             # arc length   b = r·alpha (alpha in radian)
             # chord length s = 2·r·sin(alpha/2)
-- 
2.43.0


From 0dc822c29a813dec886cc8f129590d35ee40bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 30/35] fix: length of clockwise arcs in absolute extrusion
 mode

Their angle is negative, so the arc retracted the filament of the run.
---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 0283dea..808dc98 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -316,7 +316,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         else:
             # absolute mode: fall-back to the original length
             phase_diffs=self.get_phase_diffs(circle)
-            arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
+            arc_lens=[ abs(alpha)*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
             op1.e=self.queue[0].current_e+arc_extrusion_length
             op1.relative_e=False
-- 
2.43.0


From 9d732898bd363d6cbf821d17039276fa410515e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 31/35] fix: give the end point of arcs in the coordinates of
 the program

The tracked position is the machine's, which differs after G92 and in relative
positioning mode.
---
 gcodeutils/filter/arc_optimizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 808dc98..72422d8 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -298,8 +298,14 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1 = Line()
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
-        op1.x = round(circle.end.x, 3)
-        op1.y = round(circle.end.y, 3)
+        if end_point.relative:
+            origin = circle.start
+        else:
+            # origin of the coordinates used by the program, as shifted by G92
+            origin = Point(next((line.current_x - line.x for line in self.queue[1:] if line.x is not None), 0),
+                           next((line.current_y - line.y for line in self.queue[1:] if line.y is not None), 0))
+        op1.x = round(circle.end.x - origin.x, 3)
+        op1.y = round(circle.end.y - origin.y, 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
         if end_point.e is None:
-- 
2.43.0


From f096f9a668d2b155629818f19d78f67785006d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 32/35] fix: no feed rate word on arcs while no feed rate is
 known

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 72422d8..caf548a 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -334,7 +334,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
-        op1.f = end_point.current_f
+        op1.f = end_point.current_f or None
         unsplit(op1)
         op1.raw += "; generated from %s segments" % (count - 1)
         self.valid_circle = False
-- 
2.43.0


From c0fb4c143abc5a9fe67a732351e784a963198983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 33/35] fix: forget the queued lines once they are written out

A filter used for a second program repeated the end of the first one.
---
 gcodeutils/filter/arc_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index caf548a..e4244ed 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -120,6 +120,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             self.parse_layer(layer, opcode_filter)
         if len(self.queue) > 0:
             layer += self.queue
+        self.queue = []
+        self.valid_circle = False
 
     def get_circle_least_squares(self):
         """
-- 
2.43.0


From 63b7169ec033210cd86cdf518dae0369e0ffba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 34/35] fix: keep track of moves outside of loops when
 stretching

---
 gcodeutils/stretch/stretch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 4b43d7b..4b3b5b3 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -491,6 +491,10 @@ class StretchFilter:
         if line.command in linear_move_gcodes and self.isLoop and (line.x is not None or line.y is not None):
             return self.stretch_line(line)
 
+        # moves out of loops change the location too
+        if line.command in linear_move_gcodes:
+            self.oldLocation = get_location_from_line(self.oldLocation, line)
+
         return line
 
     def set_stretch_to_path(self):
-- 
2.43.0


From 6bede441846247623c2d49f1ac6b2d05aed1e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 35/35] fix: a line that changes the height and extrudes counts
 for the layer it starts

---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5007719..a7b9d68 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -578,7 +578,6 @@ class GCode(object):
                             total_e += new_e - current_e
                             current_e = new_e
                         max_e = max(max_e, total_e)
-                        cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
                         current_e = line.e
                         offset_e = 0
@@ -721,6 +720,8 @@ class GCode(object):
 
             if build_layers:
                 cur_lines.append(true_line)
+                # the line belongs to the layer it may just have started
+                cur_layer_has_extrusion |= bool(line.extruding)
                 layer_idxs.append(layer_id)
                 line_idxs.append(layer_line)
                 layer_line += 1
-- 
2.43.0

