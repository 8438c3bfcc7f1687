From 3caa13051ff97b6c6ea94786e52c9725a1452149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 01/40] fix: G92 with a non-zero value must not move the
 machine

---
 pyGCodeDecode/state_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index fc370c8..d75bded 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -310,7 +310,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
                     virtual_machine["_" + key] = (
-                        virtual_machine[key] + line_dict["G92"][key] + virtual_machine["_" + key]
+                        virtual_machine[key] - line_dict["G92"][key] + virtual_machine["_" + key]
                     )
                     virtual_machine[key] = line_dict["G92"][key]
 
-- 
2.43.0


From dfe612fc30876df6b1ffaa6c7d2f0cf9fe0e1ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 02/40] fix: match G-code commands as whole words, with
 optional leading zeros

---
 pyGCodeDecode/state_generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index d75bded..cf91567 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -120,7 +120,9 @@ def arg_extract(string: str, key_dict: dict) -> dict:
     matches: List[Match] = list()  # list to store matching keywords
 
     for key in key_dict.keys():  # look for each key in the dictionary
-        match = re.search(key, string)  # regex search for key in string
+        # a numbered command has to match as a whole, leading zeros of its number do not matter
+        pattern = f"{key[0]}0*{key[1:]}(?![0-9.])" if key[-1].isdigit() else key
+        match = re.search(pattern, string)  # regex search for key in string
         if match is not None:
             matches.append(match)  # append found matches
 
@@ -135,6 +137,7 @@ def arg_extract(string: str, key_dict: dict) -> dict:
 
     # support for multiple commands or additional comments per line
     match_start_list = [match.start() for match in matches]
+    match_start_list += [word.start() for word in re.finditer("[GM][0-9]", string)]  # unknown commands end args, too
     next_larger = lambda lst, num: min(  # noqa: E731
         filter(lambda x: x >= num, lst), default=len(string)
     )  # function to find next largest occurrence in list, default to eol
@@ -145,7 +148,7 @@ def arg_extract(string: str, key_dict: dict) -> dict:
 
     for match in matches:  # iterate through all matches, with next match available
         match_end = match.end()  # find arg beginning by using end of match
-        key = match.group()  # get key from match
+        key = re.sub("(?<=[A-Z])0+(?=[0-9])", "", match.group())  # get key from match, without leading zeros
         arg = None
 
         match_next_start = next_larger(match_start_list, match_end)  # find arg end by using beginning of next arg
-- 
2.43.0


From fa4bf910841a5407a1d40ec92e50c40dbef00342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 03/40] fix: convert lengths to mm while G20 (inch units) is
 active

---
 pyGCodeDecode/state_generator.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index cf91567..05592b9 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -285,6 +285,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             virtual_machine["units"] = "inch"
         if "G21" in line_dict:
             virtual_machine["units"] = "SImm"
+        scale = 25.4 if virtual_machine["units"] == "inch" else 1  # all values are stored in mm
 
         # position & velocity
         pos_keys = ["X", "Y", "Z"]
@@ -295,41 +296,41 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
                 for key in pos_keys:
                     if key in line_dict[command]:
                         if virtual_machine["absolute_position"] is True:
-                            virtual_machine[key] = line_dict[command][key]
+                            virtual_machine[key] = scale * line_dict[command][key]
                         elif virtual_machine["absolute_position"] is False:  # redundant
-                            virtual_machine[key] = virtual_machine[key] + line_dict[command][key]
+                            virtual_machine[key] = virtual_machine[key] + scale * line_dict[command][key]
 
                 # look for extrusion commands and apply abs/rel
                 if "E" in line_dict[command]:
                     if virtual_machine["absolute_extrusion"] is True:
-                        virtual_machine["E"] = line_dict[command]["E"]
+                        virtual_machine["E"] = scale * line_dict[command]["E"]
                     if virtual_machine["absolute_extrusion"] is False:  # redundant
-                        virtual_machine["E"] = virtual_machine["E"] + line_dict[command]["E"]
+                        virtual_machine["E"] = virtual_machine["E"] + scale * line_dict[command]["E"]
                 if "F" in line_dict[command]:
-                    virtual_machine["p_vel"] = line_dict[command]["F"] / 60
+                    virtual_machine["p_vel"] = scale * line_dict[command]["F"] / 60
 
         # set position
         if "G92" in line_dict:
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
                     virtual_machine["_" + key] = (
-                        virtual_machine[key] - line_dict["G92"][key] + virtual_machine["_" + key]
+                        virtual_machine[key] - scale * line_dict["G92"][key] + virtual_machine["_" + key]
                     )
-                    virtual_machine[key] = line_dict["G92"][key]
+                    virtual_machine[key] = scale * line_dict["G92"][key]
 
         # set acceleration
         if "M204" in line_dict and "P" in line_dict["M204"]:
-            virtual_machine["p_acc"] = line_dict["M204"]["P"]
+            virtual_machine["p_acc"] = scale * line_dict["M204"]["P"]
 
         # set max feedrate
         if "M203" in line_dict:
             for key in line_dict["M203"]:
                 if key in known_commands["M203"]:
-                    virtual_machine["v" + key] = line_dict["M203"][key]
+                    virtual_machine["v" + key] = scale * line_dict["M203"][key]
 
         # set advanced settings
         if "M205" in line_dict and "X" in line_dict["M205"]:
-            virtual_machine["jerk"] = line_dict["M205"]["X"]
+            virtual_machine["jerk"] = scale * line_dict["M205"]["X"]
 
         # dwell
         pause_duration = None
-- 
2.43.0


From 30aed5d8c3a7709283863c341fac76aa390faab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 04/40] fix: rounding residue of G92 and relative moves must
 not become a move

---
 pyGCodeDecode/state_generator.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 05592b9..e65ed4d 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -241,12 +241,15 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             )"""
             virtual_machine[key] = default_virtual_machine[key]
 
+    # rounding errors of offsets, relative moves and unit conversion must not become moves of their own
+    round_to = 9
+
     # initial state creation
     state_position = position(
-        virtual_machine["X"] + virtual_machine["_X"],
-        virtual_machine["Y"] + virtual_machine["_Y"],
-        virtual_machine["Z"] + virtual_machine["_Z"],
-        virtual_machine["E"] + virtual_machine["_E"],
+        round(virtual_machine["X"] + virtual_machine["_X"], round_to),
+        round(virtual_machine["Y"] + virtual_machine["_Y"], round_to),
+        round(virtual_machine["Z"] + virtual_machine["_Z"], round_to),
+        round(virtual_machine["E"] + virtual_machine["_E"], round_to),
     )
 
     p_settings = state.p_settings(
@@ -341,10 +344,10 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
                 pause_duration = line_dict["G4"]["S"]
 
         state_position = position(
-            virtual_machine["X"] + virtual_machine["_X"],
-            virtual_machine["Y"] + virtual_machine["_Y"],
-            virtual_machine["Z"] + virtual_machine["_Z"],
-            virtual_machine["E"] + virtual_machine["_E"],
+            round(virtual_machine["X"] + virtual_machine["_X"], round_to),
+            round(virtual_machine["Y"] + virtual_machine["_Y"], round_to),
+            round(virtual_machine["Z"] + virtual_machine["_Z"], round_to),
+            round(virtual_machine["E"] + virtual_machine["_E"], round_to),
         )
 
         p_settings = state.p_settings(
-- 
2.43.0


From 630e203a696dcd226c6a6405d3f09f177cf5b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 05/40] fix: MKA junction applies the jerk factor once,
 independent of the axis order

---
 pyGCodeDecode/junction_handling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index ddc7371..ab5eefd 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -321,10 +321,10 @@ class junction_handling_MKA(junction_handling):
                 v_factor *= self.jerk / jerk
                 lim_flag = True
 
-            if lim_flag:
-                v_max_junc *= v_factor
+        if lim_flag:
+            v_max_junc *= v_factor
 
-            self.junction_vel = v_max_junc
+        self.junction_vel = v_max_junc
 
     def get_junction_vel(self):
         """Return the calculated junction velocity.
-- 
2.43.0


From 96ef6cb3ac1660985b126ddd5001f40021cf8428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 06/40] fix: MKA junction scales the previous move, not the
 next one, to the junction speed

---
 pyGCodeDecode/junction_handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index ab5eefd..0008706 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -305,7 +305,7 @@ class junction_handling_MKA(junction_handling):
         lim_flag = False
 
         for v_entry, v_exit in zip(vel_0.get_vec(withExtrusion=True), vel_1.get_vec(withExtrusion=True)):
-            v_exit *= small_speed_fac
+            v_entry *= small_speed_fac  # the faster first move is slowed down to the junction speed
 
             if lim_flag:
                 v_entry *= v_factor
-- 
2.43.0


From b2105b092b2814c675ebda4fa01bc1929d4a708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 07/40] fix: classic jerk of zero must stop at corners instead
 of passing at full speed

---
 pyGCodeDecode/junction_handling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 0008706..b469449 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -182,7 +182,10 @@ class junction_handling_marlin_jerk(junction_handling):
 
         vel_diff = vel_0 - vel_1
         jerk_move = vel_diff.get_norm()
-        scale = jerk_move / self.jerk if self.jerk > 0 else 0
+        if self.jerk > 0:
+            scale = jerk_move / self.jerk
+        else:
+            scale = math.inf if jerk_move > 0 else 0  # without jerk, every change of velocity is a full stop
 
         if scale >= 1:
             self.junction_vel = (vel_0 / scale).get_norm()
-- 
2.43.0


From 65e6dfc820bda41c2d4cd0f24acda382b9012a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 08/40] fix: Klipper's mid-move limit applies to both moves of
 a corner

---
 pyGCodeDecode/junction_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index b469449..1e6e85f 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -262,7 +262,9 @@ class junction_handling_klipper(junction_handling):
         # [from klipper]: Approximated circle must contact moves no further away than mid-move
         j_tan_theta_d2 = j_sin_theta_d2 / math.sqrt(0.5 * (1.0 + j_cos_theta))
 
-        move_centripetal_v2 = 0.5 * self.t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
+        # self.t_distance is the length of the next move
+        t_distance = min(self.state_A.state_position.get_t_distance(self.state_B.state_position), self.t_distance)
+        move_centripetal_v2 = 0.5 * t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
 
         self.junction_vel = math.sqrt(
             min(self.state_B.state_p_settings.p_acc * j_R, move_centripetal_v2, self.state_B.state_p_settings.speed**2)
-- 
2.43.0


From 9bc909a1af2302693fd7c6aed3e3b18e237a4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 09/40] fix: a dwell before the first move must not crash

---
 pyGCodeDecode/planner_block.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 9c43909..4cf402a 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -327,12 +327,17 @@ class planner_block:
         # dwell functionality
         if self.state_B.pause is not None:
             self.JD = [0, 0, 0, 0]
+            previous_segment = (
+                self.prev_block.segments[-1]
+                if self.prev_block is not None
+                else segment.create_initial(initial_position=self.state_B.state_position)
+            )
             self.segments = [
                 segment(
-                    t_begin=self.prev_block.segments[-1].t_end,
-                    t_end=self.prev_block.segments[-1].t_end + self.state_B.pause,
-                    pos_begin=self.prev_block.segments[-1].pos_end,
-                    pos_end=self.prev_block.segments[-1].pos_end,
+                    t_begin=previous_segment.t_end,
+                    t_end=previous_segment.t_end + self.state_B.pause,
+                    pos_begin=previous_segment.pos_end,
+                    pos_end=previous_segment.pos_end,
                     vel_begin=velocity(0, 0, 0, 0),
                     vel_end=velocity(0, 0, 0, 0),
                 )
-- 
2.43.0


From c57780d534620bbc853996ef017bea611c4ee58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 10/40] fix: a dwell on the line of a move must not replace the
 move

---
 pyGCodeDecode/planner_block.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 4cf402a..84cdfbd 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -310,7 +310,7 @@ class planner_block:
         # planner block calculation
         target_vel = junction.get_target_vel()  # target velocity for this planner block
 
-        v_JD = junction.get_junction_vel()
+        v_JD = junction.get_junction_vel() if self.state_B.pause is None else 0  # stop for a dwell
 
         self.direction = target_vel.get_norm_dir(withExtrusion=True)  # direction vector of pb
 
@@ -327,12 +327,13 @@ class planner_block:
         # dwell functionality
         if self.state_B.pause is not None:
             self.JD = [0, 0, 0, 0]
-            previous_segment = (
-                self.prev_block.segments[-1]
-                if self.prev_block is not None
-                else segment.create_initial(initial_position=self.state_B.state_position)
-            )
-            self.segments = [
+            if len(self.segments) > 0:  # dwell after a move on the same line
+                previous_segment = self.segments[-1]
+            elif self.prev_block is not None:
+                previous_segment = self.prev_block.segments[-1]
+            else:
+                previous_segment = segment.create_initial(initial_position=self.state_B.state_position)
+            self.segments.append(
                 segment(
                     t_begin=previous_segment.t_end,
                     t_end=previous_segment.t_end + self.state_B.pause,
@@ -341,7 +342,7 @@ class planner_block:
                     vel_begin=velocity(0, 0, 0, 0),
                     vel_end=velocity(0, 0, 0, 0),
                 )
-            ]
+            )
 
     @property
     def prev_block(self):
-- 
2.43.0


From 5f791e57ede421d823169e9f482a1bed174961b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 11/40] fix: junction speed rounded above the target speed must
 not fail the simulation

---
 pyGCodeDecode/planner_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 84cdfbd..03eb4e7 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -156,6 +156,7 @@ class planner_block:
         v_target = settings.speed
         v_begin = previous_segment.vel_end.get_norm()
         v_begin = v_begin if v_begin < v_target else v_target
+        v_end = v_end if v_end < v_target else v_target  # rounding may put it slightly above
 
         # calculate min travel for trapezoidal shape, if sum larger than distance, regular movement pattern is possible
         travel_ramp_up = (v_target - v_begin) * (v_begin + v_target) / (2 * acc)
-- 
2.43.0


From afd1b76dd2204e5db21872b1fccf59ceb294f7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 12/40] fix: braking over many short moves must not exceed the
 recursion limit

---
 pyGCodeDecode/planner_block.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 03eb4e7..80d06c9 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -203,7 +203,21 @@ class planner_block:
             raise RuntimeError()
 
     def self_correction(self, tolerance=float("1e-12")):
-        """Check for interfacing vel and self correct."""
+        """Check for interfacing vel and self correct, going back over all blocks which are affected."""
+        blocks = [self]
+        flag_correct = self._correct_end_vel(tolerance)
+        flag_back = flag_correct
+        while flag_back and blocks[-1].blocktype == "single" and blocks[-1].prev_block is not None:
+            blocks.append(blocks[-1].prev_block)  # forward correction?
+            flag_back = blocks[-1]._correct_end_vel(tolerance)
+
+        for block in reversed(blocks):
+            block._correct_time_and_check(tolerance)
+
+        return flag_correct
+
+    def _correct_end_vel(self, tolerance):
+        """Recalculate the block if its end velocity does not match the next block."""
         flag_correct = False
         if self.next_block is not None:
             same_vel = (
@@ -220,9 +234,11 @@ class planner_block:
         if self.next_block is not None and flag_correct:
             vel_end = self.next_block.get_segments()[0].vel_begin.get_norm()
             self.move_maker2(v_end=vel_end)
-            if self.blocktype == "single":
-                self.prev_block.self_correction()  # forward correction?
 
+        return flag_correct
+
+    def _correct_time_and_check(self, tolerance):
+        """Shift the next block in time and check the block."""
         # Timeshift the corrected blocks
         if self.next_block is not None:
             delta_t = self.get_segments()[-1].t_end - self.next_block.get_segments()[0].t_begin
@@ -244,8 +260,6 @@ class planner_block:
         except ValueError as ve:
             custom_print(f"Segment for {self.state_B} does not adhere to machine limits: {ve}")
 
-        return flag_correct
-
     def timeshift(self, delta_t: float):
         """Shift planner block in time.
 
-- 
2.43.0


From 06e59f7e2891b751b26ed7bd02246ec298604ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 13/40] fix: consecutive trajectory segments must not leave
 rounding gaps in time

---
 pyGCodeDecode/planner_block.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 80d06c9..342813e 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -202,6 +202,15 @@ class planner_block:
             custom_print(f"Segments to state: {str(self.state_B)} could not be modeled.\n {ve}")
             raise RuntimeError()
 
+        self._close_time_gaps(t_begin=previous_segment.t_end)
+
+    def _close_time_gaps(self, t_begin):
+        """Let each segment begin exactly where the previous one ends, rounding may leave a gap between them."""
+        for segm in self.segments:
+            segm.t_begin = t_begin
+            segm.t_end = max(segm.t_end, t_begin)
+            t_begin = segm.t_end
+
     def self_correction(self, tolerance=float("1e-12")):
         """Check for interfacing vel and self correct, going back over all blocks which are affected."""
         blocks = [self]
@@ -243,6 +252,7 @@ class planner_block:
         if self.next_block is not None:
             delta_t = self.get_segments()[-1].t_end - self.next_block.get_segments()[0].t_begin
             self.next_block.timeshift(delta_t=delta_t)
+            self.next_block._close_time_gaps(t_begin=self.get_segments()[-1].t_end)
 
         # Check continuity in Position
         if self.next_block is not None:
-- 
2.43.0


From 425140e0f61c40a51b5d6c04468c5384e123f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:31 +0000
Subject: [PATCH 14/40] fix: queries by time must not depend on the previous
 query

---
 pyGCodeDecode/gcode_interpreter.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 7f91066..fbc1c7f 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -95,7 +95,10 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
         segment: (segment) the segment which defines movement at that point in time
         last_index: (int) last index where something was found, search speed optimization possible
     """
-    if keep_position:
+    if t == path[-1].t_end:
+        # the last segment is the only one that includes its end, as no other one begins there
+        return path[-1], len(path) - 1
+    elif keep_position:
         # use this if eval for times where no planner blocks are created
         if last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
             # unoptimized search, still returns index
@@ -115,20 +118,20 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
                     return interpolated_segment, last_index
         else:
             # optimized search
-            for id, segm in enumerate(path[last_index:]):
-                if t >= segm.t_begin and t <= segm.t_end:
-                    return segm, last_index + id
-                elif t >= segm.t_end and t < path[last_index + 1].t_begin:
+            for id, segm in enumerate(path[last_index:], start=last_index):
+                if t >= segm.t_begin and t < segm.t_end:
+                    return segm, id
+                elif t >= segm.t_end and t < path[id + 1].t_begin:
                     # if no segment exists, create one that interpolates the previous segment as static
                     interpolated_segment = segment(
                         t_begin=segm.t_end,
-                        t_end=path[last_index + 1].t_begin,
+                        t_end=path[id + 1].t_begin,
                         pos_begin=segm.pos_end,
                         pos_end=segm.pos_end,
                         vel_begin=velocity(0, 0, 0, 0),
                         vel_end=velocity(0, 0, 0, 0),
                     )
-                    return interpolated_segment, last_index
+                    return interpolated_segment, id
     else:
         # original function untouched
         # some robustness checks
@@ -142,7 +145,7 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
                     return segm, last_index
         else:
             for id, segm in enumerate(path[last_index:]):
-                if t >= segm.t_begin and t <= segm.t_end:
+                if t >= segm.t_begin and t < segm.t_end:
                     return segm, last_index + id
             raise ValueError("nothing found")
 
-- 
2.43.0


From 8781b77ff9a12b5d437d082ea12bad30957733aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:01 +0000
Subject: [PATCH 15/40] fix: layer metrics must include the last block of the
 print

---
 pyGCodeDecode/tools.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index ac79908..02f512a 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -46,37 +46,33 @@ def save_layer_metrics(
     last_layer_time = 0
     travel = 0
 
+    def finish_layer(t_end):
+        duration = t_end - last_layer_time
+        average_speed = travel / duration if duration != 0 else "NaN"
+
+        layers.append(current_layer)
+        durations.append(duration)
+        travel_distances.append(travel)
+        avg_speeds.append(average_speed)
+
     for block in simulation.blocklist:
-        last_block_of_layer = False
         next_layer = block.state_B.layer
 
-        # calculate the duration of the block
         if next_layer > current_layer:  # layer switch in this block
-            last_block_of_layer = True
             block_begin = block.segments[0].t_begin
-            duration = block_begin - last_layer_time
-        elif block.next_block is None:  # last block of the print
-            last_block_of_layer = True
-            block_end = block.segments[-1].t_end
-            duration = block_end - last_layer_time
-
-        if last_block_of_layer:
-            average_speed = travel / duration if duration != 0 else "NaN"
-
-            layers.append(current_layer)
-            durations.append(duration)
-            travel_distances.append(travel)
-            avg_speeds.append(average_speed)
+            finish_layer(t_end=block_begin)
 
             # set variables for next layer
-            if next_layer > current_layer:
-                travel = 0
-                last_layer_time = block_begin
-                current_layer = next_layer
+            travel = 0
+            last_layer_time = block_begin
+            current_layer = next_layer
 
         # add travel distance of current block
         travel += block.get_block_travel()
 
+        if block.next_block is None:  # last block of the print
+            finish_layer(t_end=block.segments[-1].t_end)
+
     # write the layer info to a csv if a filepath is given
     if filepath is not None:
         # create directory if necessary
-- 
2.43.0


From 6e25cb3664beeca7953aa6883f5e27f265f69c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 16/40] fix: division of 4D vectors by an integer is supported
 as documented

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 5405adb..055ebbb 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -129,7 +129,7 @@ class vector_4D:
         Returns:
             div: (self) scalar division, scaling
         """
-        if type(other) is float or type(other) is np.float64:
+        if type(other) is float or type(other) is np.float64 or type(other) is int:
             x = self.x / other
             y = self.y / other
             z = self.z / other
-- 
2.43.0


From 0bcaba50b7cf73d0cafcfe638232e1235c785862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 17/40] fix: a setup handed out must not change with later
 calls on the setup

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index fbc1c7f..3fbedb0 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -914,7 +914,7 @@ class setup:
         Returns:
             return_dict: (dict) setup dictionary
         """
-        return_dict = self.setup_dict[self.printer_select]  # create dict
+        return_dict = dict(self.setup_dict[self.printer_select])  # create dict, independent of the setup
         return_dict.update(self.initial_position)  # add initial position
         if self.layer_cue is not None:
             return_dict.update({"layer_cue": self.layer_cue})  # add layer cue
-- 
2.43.0


From df0bd72af067aa436027a9079f640b6a8cbbb52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:09 +0000
Subject: [PATCH 18/40] fix: a rejected initial position must not be applied in
 part

---
 pyGCodeDecode/gcode_interpreter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 3fbedb0..c2dc6ad 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -879,8 +879,7 @@ class setup:
         scaling = self.get_scaling_factor(input_unit_system=input_unit_system)
 
         if isinstance(initial_position, dict) and all(key in initial_position for key in ["X", "Y", "Z", "E"]):
-            for key in initial_position:
-                self.initial_position[key] = scaling * initial_position[key]
+            self.initial_position = {key: scaling * initial_position[key] for key in initial_position}
         elif isinstance(initial_position, tuple) and len(initial_position) == 4:
             self.initial_position = {
                 "X": scaling * initial_position[0],
-- 
2.43.0


From 53937ef9694f4dc64bda9793d32a6910137d9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 19/40] fix: a program without any motion must not crash

---
 pyGCodeDecode/gcode_interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index c2dc6ad..4c71ada 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -680,9 +680,10 @@ class simulation:
         Args:
             start_time (float): time when the simulation run was started
         """
+        t_end = self.blocklist[-1].get_segments()[-1].t_end if len(self.blocklist) > 0 else 0.0
         custom_print(
             f" >> pyGCodeDecode extracted {len(self.states)} states from {self.filename} and generated {len(self.blocklist)} planner blocks.\n"
-            f"Estimated time to travel all states with provided printer settings is {self.blocklist[-1].get_segments()[-1].t_end:.2f} seconds.\n"
+            f"Estimated time to travel all states with provided printer settings is {t_end:.2f} seconds.\n"
             f"The Simulation took {(time.time()-start_time):.2f} s."
         )
 
-- 
2.43.0


From 9e40fccc5a94f44af87829ad910a6eb7d210cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 20/40] fix: time at a distance along a move must be correct
 while braking and at both ends

---
 pyGCodeDecode/planner_block.py |  5 ++++-
 pyGCodeDecode/utils.py         | 17 ++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 342813e..4a28f9c 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -421,12 +421,15 @@ class planner_block:
         """
         # block_length = sum(segm.get_segm_len() for segm in self.segments)
 
+        if dist_local < 0:
+            raise ValueError(f"This Planner Block is not defined for dist: {dist_local}.")
+
         cum_dist = 0
         # last_cum_dist = 0
         for segm in self.segments:
             cum_dist += segm.get_segm_len()  # len with current segment
             # last_cum_dist = len, without curr segm; dist_local >= last_cum_dist and ; last_cum_dist = cum_dist
-            if dist_local <= cum_dist:
+            if dist_local <= cum_dist or np.isclose(dist_local, cum_dist, rtol=1e-9, atol=1e-9):
                 segm_local_dist = segm.get_segm_len() - (cum_dist - dist_local)
 
                 time_of_isect = segm._interpolate_time_to_space(
diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 055ebbb..289b250 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -466,15 +466,14 @@ class segment:
             return slope * t + scalar_begin
 
         def get_time(x):
-            a = (self.vel_end - self.vel_begin).get_norm() / (self.t_end - self.t_begin)
-            if a > 0:
-                v_sq = 2 * a * x + self.vel_begin.get_norm() ** 2
-                t = (np.sqrt(v_sq) - self.vel_begin.get_norm()) / a if v_sq > 0 else 0
-                if v_sq <= 0:
-                    raise ValueError("Could not map time dependant scalar to space.")
-            elif a == 0:
-                t = x / self.vel_begin.get_norm()
-            return t
+            # signed acceleration along the segment
+            a = (self.vel_end.get_norm() - self.vel_begin.get_norm()) / (self.t_end - self.t_begin)
+            v_sq = max(2 * a * x + self.vel_begin.get_norm() ** 2, 0)  # rounding may put it slightly below zero
+            return 2 * x / (self.vel_begin.get_norm() + np.sqrt(v_sq))
+
+        x = min(x, self.get_segm_len())  # rounding may put it slightly beyond the end
+        if x <= 0:
+            return scalar_begin  # also covers segments without any travel
 
         t = get_time(x)
         scalar = lin_scalar(t)
-- 
2.43.0


From b35d5abf68c25a12934cf541aba45f956a7d89c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:17 +0000
Subject: [PATCH 21/40] fix: submodel times must list each crossing of the
 control volume exactly once

---
 pyGCodeDecode/tools.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 02f512a..b17d94c 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -190,7 +190,7 @@ def write_submodel_times(
 
         return possible
 
-    def isect_line_plane(p0, p1, p_co, p_no, epsilon=1e-6):
+    def isect_line_plane(p0, p1, p_co, p_no, epsilon=0):
         """Return a Vector or None (when the intersection can't be found).
 
         p0, p1: Define the line.
@@ -237,6 +237,7 @@ def write_submodel_times(
         p_eval_B = point_eval(block.state_B.state_position.get_vec(), control_volume.get_plane_lim())
 
         if intersect_possible(p_eval0=p_eval_A, p_eval1=p_eval_B):
+            dist_in, dist_out = 0.0, block.get_block_travel()
             for plane_orig, plane_normal in zip(control_volume.get_plane_orig(), control_volume.get_plane_normals()):
                 isec, s_len, sgn = isect_line_plane(
                     p0=block.state_A.state_position.get_vec(),
@@ -245,11 +246,19 @@ def write_submodel_times(
                     p_no=plane_normal,
                 )
 
-                if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
-                    timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
+                # the line is inside of the CV behind the last plane entered and before the first plane left
+                if isec is not None and sgn:
+                    dist_in = max(dist_in, s_len)
+                elif isec is not None:
+                    dist_out = min(dist_out, s_len)
 
-    timetable = np.asarray(timetable)  # convert list to array for sorting
-    timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
+            if dist_in <= dist_out and not point_inside(p_eval_A):
+                timetable.append([float(block.inverse_time_at_pos(dist_in)), True])
+            if dist_in <= dist_out and not point_inside(p_eval_B):
+                timetable.append([float(block.inverse_time_at_pos(dist_out)), False])
+
+    timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting
+    timetable = timetable[timetable[:, 0].argsort(kind="stable")]  # sort array by first column
 
     time_in = timetable[:, 0][np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for entering the CV
     time_out = timetable[:, 0][~np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for exiting the CV
-- 
2.43.0


From 615837df47f718c29f3b84d29ea34c3fd57eb194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 22/40] fix: 3D plot of a path without anything to show must
 not crash

---
 pyGCodeDecode/gcode_interpreter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 4c71ada..4a376e0 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -435,12 +435,13 @@ class simulation:
             off_screen = True
 
         p = pv.Plotter(off_screen=off_screen)
-        p.add_mesh(
-            mesh,
-            scalars="velocity",
-            smooth_shading=True,
-            scalar_bar_args={"title": "travel velocity in mm/s"},
-        )
+        if mesh.n_points > 0:  # nothing to plot otherwise
+            p.add_mesh(
+                mesh,
+                scalars="velocity",
+                smooth_shading=True,
+                scalar_bar_args={"title": "travel velocity in mm/s"},
+            )
 
         if vtk_path is not None:
             mesh.save(filename=vtk_path)
-- 
2.43.0


From 656c73ddf4015f905ae2bc430ed479959d261992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:32 +0000
Subject: [PATCH 23/40] fix: initial segment without a position must start at
 the origin instead of crashing

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 289b250..d649555 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -555,5 +555,5 @@ class segment:
             segment: (segment) initial beginning segment
         """
         velocity_0 = velocity(0, 0, 0, 0)
-        pos_0 = position(x=0, y=0, z=0, e=0) if initial_position is None else initial_position
+        pos_0 = position(0, 0, 0, 0) if initial_position is None else initial_position
         return cls(t_begin=0, t_end=0, pos_begin=pos_0, vel_begin=velocity_0, pos_end=pos_0, vel_end=velocity_0)
-- 
2.43.0


From 66cc961bd1541d1e3b74f0263bd79107d4853db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 24/40] fix: layer metrics must be saved even if the requested
 locale is not installed

---
 pyGCodeDecode/tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index b17d94c..0cfae30 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -32,10 +32,10 @@ def save_layer_metrics(
         custom_print("⚠️ No layer_cue was specified in the simulation setup. Therefore, layer metrics can not be saved!")
         return None
 
-    if locale is None:
-        loc.setlocale(loc.LC_ALL, "")
-    else:
-        loc.setlocale(loc.LC_ALL, locale)
+    try:
+        loc.setlocale(loc.LC_ALL, "" if locale is None else locale)
+    except loc.Error:
+        custom_print(f"⚠️ The locale '{locale}' is not available on this system and is not used!")
 
     layers = []
     durations = []
-- 
2.43.0


From b0d00810d449fe689bd2c4541692a518a9fc5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 25/40] fix: extrusion width must be zero where the head stops
 instead of a ratio of rounding errors

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 4a376e0..e52f5d6 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -627,7 +627,7 @@ class simulation:
         filament_cross_sec = (np.pi * filament_dia**2) / 4  # calculate cross area of filament
 
         width = (
-            (flow_rate * filament_cross_sec) / (extrusion_h * feed_rate) if feed_rate > 0 else 0
+            (flow_rate * filament_cross_sec) / (extrusion_h * feed_rate) if not np.isclose(feed_rate, 0.0) else 0
         )  # calculate width, zero if no movement.
 
         return width
-- 
2.43.0


From d10c8d44a8f73a74b8ac3f7dad9edcd803e30fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 26/40] fix: time at a distance must not be NaN in a segment
 without duration

---
 pyGCodeDecode/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index d649555..f1a5ab2 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -472,8 +472,8 @@ class segment:
             return 2 * x / (self.vel_begin.get_norm() + np.sqrt(v_sq))
 
         x = min(x, self.get_segm_len())  # rounding may put it slightly beyond the end
-        if x <= 0:
-            return scalar_begin  # also covers segments without any travel
+        if x <= 0 or self.t_end <= self.t_begin:
+            return scalar_begin  # also covers segments without any travel or duration
 
         t = get_time(x)
         scalar = lin_scalar(t)
-- 
2.43.0


From e45850573232777a9f2facf2edbcb94295d39dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:48 +0000
Subject: [PATCH 27/40] fix: 2D plot with marked points crashed, plain 2D plot
 drew over an open figure

---
 pyGCodeDecode/gcode_interpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index e52f5d6..daff41f 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -331,13 +331,14 @@ class simulation:
                 update_progress((i + 1) / len(segments), name="2D Plot Lines")
                 x.append(segm.pos_end.get_vec()[0])
                 y.append(segm.pos_end.get_vec()[1])
-            fig = plt.subplot()
-            fig.plot(x, y, color="black")
+            fig = plt.figure()
+            ax1 = fig.add_subplot(1, 1, 1)
+            ax1.plot(x, y, color="black")
 
         if show_points:
             for i, block in enumerate(self.blocklist):
                 update_progress(i / len(self.blocklist), name="2D Plot Points")
-                fig.scatter(
+                ax1.scatter(
                     block.get_segments()[-1].pos_end.get_vec()[0],
                     block.get_segments()[-1].pos_end.get_vec()[1],
                     color="blue",
-- 
2.43.0


From a671cb1660591c841ab6198f6879f8f34c22c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:43 +0000
Subject: [PATCH 28/40] fix: 2D plot left out a last move at constant velocity

---
 pyGCodeDecode/gcode_interpreter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index daff41f..6c6dc12 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -284,6 +284,7 @@ class simulation:
                     interpolated = np.r_[interpolated, np.array([x_i, y_i, colvar_i]).T]
                 old_point = point
             interpolated = np.delete(interpolated, 0, 0)
+            interpolated = np.r_[interpolated, points[-1:, :3]]  # end of the path
 
             return interpolated
 
-- 
2.43.0


From 0d568c810410d80f37497ad55b5dff18d3305774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:36 +0000
Subject: [PATCH 29/40] fix: segment results could neither be calculated nor
 asked for

---
 pyGCodeDecode/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index f1a5ab2..5f7891b 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -347,6 +347,7 @@ class segment:
         self.pos_end = pos_end
         self.vel_begin = vel_begin
         self.vel_end = vel_end
+        self.result = {}
         self.self_check()
 
     def __str__(self) -> str:
-- 
2.43.0


From e029f2bf01894aa79d2f7416843c1da17bc0de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:57 +0000
Subject: [PATCH 30/40] fix: limiting a velocity to the maximum axis speeds
 crashed

---
 pyGCodeDecode/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 5f7891b..1c1ab46 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -225,10 +225,10 @@ class velocity(vector_4D):
             vel: (velocity) constrained by max velocity
         """
         scale = 1.0
-        scale = p_settings.Vx / self.Vx if self.Vx > 0 and p_settings.Vx / self.Vx < scale else scale
-        scale = p_settings.Vy / self.Vy if self.Vy > 0 and p_settings.Vy / self.Vy < scale else scale
-        scale = p_settings.Vz / self.Vz if self.Vz > 0 and p_settings.Vz / self.Vz < scale else scale
-        scale = p_settings.Ve / self.Ve if self.Vz > 0 and p_settings.Ve / self.Ve < scale else scale
+        limits = (p_settings.vX, p_settings.vY, p_settings.vZ, p_settings.vE)
+        for vel, limit in zip(self.get_vec(withExtrusion=True), limits):
+            if abs(vel) * scale > limit:
+                scale = limit / abs(vel)
 
         return self * scale
 
-- 
2.43.0


From 3d683a4252d8af9664b6e80b7c61da7b500dfdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:57 +0000
Subject: [PATCH 31/40] fix: progress given as an integer was reported as an
 error

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 6c6dc12..e10f8e8 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -35,7 +35,7 @@ def update_progress(progress: float, name: str = "Percent") -> None:
     status = ""
 
     # check whether the input is valid
-    if progress is int:
+    if isinstance(progress, int):
         progress = float(progress)
     if not isinstance(progress, float):
         progress = 0.0
-- 
2.43.0


From b22eb724a2f0fbc4b2eab845a018ca08b83d5f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:00 +0000
Subject: [PATCH 32/40] fix: progress of the points of the 2D plot never
 completed

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index e10f8e8..fd39fbb 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -338,7 +338,7 @@ class simulation:
 
         if show_points:
             for i, block in enumerate(self.blocklist):
-                update_progress(i / len(self.blocklist), name="2D Plot Points")
+                update_progress((i + 1) / len(self.blocklist), name="2D Plot Points")
                 ax1.scatter(
                     block.get_segments()[-1].pos_end.get_vec()[0],
                     block.get_segments()[-1].pos_end.get_vec()[1],
-- 
2.43.0


From c48174626b1869d675a1a4cffce8e272501d2932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:03 +0000
Subject: [PATCH 33/40] fix: progress of the block correction never completed
 for long programs

---
 pyGCodeDecode/gcode_interpreter.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index fd39fbb..682aea8 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -574,15 +574,8 @@ class simulation:
 
     def trajectory_self_correct(self):
         """Self correct all blocks in the blocklist with self_correction() method."""
-        n_max = len(self.blocklist)
-        last_progress_update = 0
-
         for n, block in enumerate(self.blocklist):
-            progress = round(n / n_max, ndigits=3)
-            if progress > last_progress_update:
-                update_progress((n + 1) / len(self.blocklist), name="Block Correction")
-                last_progress_update = progress
-
+            update_progress((n + 1) / len(self.blocklist), name="Block Correction")
             block.self_correction()
 
     def get_values(self, t: float, output_unit_system: str = None) -> Tuple[List[float]]:
-- 
2.43.0


From 593b493825f9707751817b6b2a5830778c3f83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:05 +0000
Subject: [PATCH 34/40] fix: printing anything but text failed inside ABAQUS

---
 pyGCodeDecode/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/helpers.py b/pyGCodeDecode/helpers.py
index 595e185..0a49d35 100644
--- a/pyGCodeDecode/helpers.py
+++ b/pyGCodeDecode/helpers.py
@@ -16,7 +16,7 @@ def custom_print(*args, **kwargs) -> None:
     if FLAG_USING_ABAQUS:
         # remove non-ascii characters like emojis as ABAQUS can't handle them
         for arg in args:
-            sanitized_args.append(arg.encode("ascii", "ignore").decode())
+            sanitized_args.append(str(arg).encode("ascii", "ignore").decode())
     else:
         sanitized_args = args
 
-- 
2.43.0


From ca4bb1e663d668928fdb0e06f66b07ef067a6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:28 +0000
Subject: [PATCH 35/40] fix: a property set on one printer does not change
 another one which is its YAML alias

---
 pyGCodeDecode/gcode_interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 682aea8..f8ae820 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -900,7 +900,8 @@ class setup:
 
         """
         if self.printer_select is not None:
-            self.setup_dict[self.printer_select].update(property_dict)
+            # the presets of several printers may be the same dictionary (YAML alias)
+            self.setup_dict[self.printer_select] = {**self.setup_dict[self.printer_select], **property_dict}
         else:
             raise ValueError("No printer is selected. Select printer through select_printer() beforehand.")
 
-- 
2.43.0


From dadbe901b8a35919e51c95c1380795b2a5dd738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:00 +0000
Subject: [PATCH 36/40] fix: files are read as UTF-8 whatever the locale of the
 process has become (saving a VTK file or layer metrics changes it)

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 pyGCodeDecode/state_generator.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index f8ae820..79ff43f 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -842,7 +842,7 @@ class setup:
         import yaml
         from yaml import Loader
 
-        file = open(file=filepath)
+        file = open(file=filepath, encoding="utf-8")
 
         setup_dict = yaml.load(file, Loader=Loader)
         return setup_dict
diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index e65ed4d..084d9e1 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -187,7 +187,7 @@ def read_gcode_to_dict_list(filepath: pathlib.Path) -> List[dict]:
     custom_print("Parsing the gcode...")
     dict_list = []
 
-    with open(file=filepath) as file_gcode:
+    with open(file=filepath, encoding="utf-8") as file_gcode:
         for i, line in enumerate(file_gcode):
             line_dict = arg_extract(string=line, key_dict=known_commands)
             line_dict["line_number"] = i + 1
-- 
2.43.0


From 2e6fd08d78ee408e8d9d225f0c580ae02d311e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 37/40] fix: printing must not fail on a console which can not
 show every character

---
 pyGCodeDecode/cli.py     | 5 +++--
 pyGCodeDecode/helpers.py | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/cli.py b/pyGCodeDecode/cli.py
index 7b4e484..1731b65 100644
--- a/pyGCodeDecode/cli.py
+++ b/pyGCodeDecode/cli.py
@@ -70,11 +70,12 @@ def _plot(args: argparse.Namespace):
         if out_dir is None:
             answer = ""
             while answer.lower() not in ("y", "yes", "n", "no"):
-                answer = input(
+                custom_print(
                     "⚠️ No output directory specified! Do you want to create one in the current working directory?"
                     "\nOtherwise no outputs will be saved!"
-                    "\nYou must answer with yes (y) or no (n)!\n"
+                    "\nYou must answer with yes (y) or no (n)!"
                 )
+                answer = input()
 
             if answer.lower() in ["n", "no"]:
                 custom_print("⚠️ Not creating any output files.")
diff --git a/pyGCodeDecode/helpers.py b/pyGCodeDecode/helpers.py
index 0a49d35..f2d9dc4 100644
--- a/pyGCodeDecode/helpers.py
+++ b/pyGCodeDecode/helpers.py
@@ -11,13 +11,16 @@ else:
 
 
 def custom_print(*args, **kwargs) -> None:
-    """Sanitize outputs for ABAQUS and print them. Takes regular arguments for print."""
+    """Sanitize outputs for ABAQUS or the console and print them. Takes regular arguments for print."""
     sanitized_args = []
     if FLAG_USING_ABAQUS:
         # remove non-ascii characters like emojis as ABAQUS can't handle them
         for arg in args:
             sanitized_args.append(str(arg).encode("ascii", "ignore").decode())
     else:
-        sanitized_args = args
+        # remove characters the console can't show, printing them would fail
+        encoding = getattr(sys.stdout, "encoding", None) or "utf-8"
+        for arg in args:
+            sanitized_args.append(str(arg).encode(encoding, "ignore").decode(encoding))
 
     print(*sanitized_args, **kwargs)
-- 
2.43.0


From bd5564d7b3dfc34c33b3a93cb4812981cbeac9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:09 +0000
Subject: [PATCH 38/40] fix: a comment in another encoding must not keep a file
 from being simulated

---
 pyGCodeDecode/state_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 084d9e1..a7eb244 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -187,7 +187,7 @@ def read_gcode_to_dict_list(filepath: pathlib.Path) -> List[dict]:
     custom_print("Parsing the gcode...")
     dict_list = []
 
-    with open(file=filepath, encoding="utf-8") as file_gcode:
+    with open(file=filepath, encoding="utf-8", errors="surrogateescape") as file_gcode:
         for i, line in enumerate(file_gcode):
             line_dict = arg_extract(string=line, key_dict=known_commands)
             line_dict["line_number"] = i + 1
-- 
2.43.0


From 4f030aff2bccb8f6c0526a954375241d29fd623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:54 +0000
Subject: [PATCH 39/40] fix: a process without a console (sys.stdout is None)
 must be able to simulate

---
 pyGCodeDecode/gcode_interpreter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 79ff43f..e76cca2 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -55,8 +55,9 @@ def update_progress(progress: float, name: str = "Percent") -> None:
     if last_progress_update != progress_percent or status != "":
         block = int(round(barLength * progress, ndigits=0))
         text = f"\r[{'#' * block + '-' * (barLength - block)}] {progress_percent} % of {name} {status}"
-        sys.stdout.write(text)
-        sys.stdout.flush()
+        if sys.stdout is not None:  # there is none without a console, e.g. using pythonw
+            sys.stdout.write(text)
+            sys.stdout.flush()
         last_progress_update = progress_percent
 
 
-- 
2.43.0


From bcba06858789dbdbfcd88081abec00695b139e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:22 +0000
Subject: [PATCH 40/40] fix: plot_3d must not announce a VTK file which could
 not be saved

---
 pyGCodeDecode/gcode_interpreter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index e76cca2..99ab327 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -448,6 +448,7 @@ class simulation:
 
         if vtk_path is not None:
             mesh.save(filename=vtk_path)
+            open(vtk_path, "r+b").close()  # raises an error if it could not be saved, VTK itself only prints one
             custom_print(f"VTK saved to:\n{vtk_path}")
         if screenshot_path is not None:
             if display_available:
-- 
2.43.0

