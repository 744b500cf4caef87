From bc9fc2204983804aa95124e2752295f38f1e6c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:42 +0000
Subject: [PATCH 01/45] fix: read enharmonic pitch names (C#/Db) when
 converting MIDI pitches to TPC

---
 harmonic_inference/utils/harmonic_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index 770bd5e..a26a884 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -1021,7 +1021,7 @@ def get_pitch_from_string(pitch_string: str, pitch_type: PitchType) -> int:
     pitch : int
         An integer representing the given pitch string as the given type.
     """
-    if pitch_type == PitchType.MIDI and "/" in pitch_string:
+    if "/" in pitch_string:
         pitch_string = pitch_string.split("/")[0]
 
     accidental_adjustment, pitch_string = get_accidental_adjustment(pitch_string, in_front=False)
-- 
2.43.0


From 29c2b94a9a13a4efbe8b610e474f3e95a8c3f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:42 +0000
Subject: [PATCH 02/45] fix: use 12 semitones per octave for the note number of
 a MIDI-typed note

---
 harmonic_inference/data/note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index d1c8402..36524cc 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -125,7 +125,7 @@ class Note:
             The MIDI note number of this Note's pitch.
         """
         if self.pitch_type == PitchType.MIDI:
-            return NUM_PITCHES[PitchType.TPC] * self.octave + self.pitch_class
+            return NUM_PITCHES[PitchType.MIDI] * self.octave + self.pitch_class
 
         midi_pitch_class = get_pitch_from_string(
             get_pitch_string(self.pitch_class, self.pitch_type), PitchType.MIDI
-- 
2.43.0


From 2cf68791de214ffe96832883b906eaba56c4b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:25 +0000
Subject: [PATCH 03/45] fix: reject transposed note vectors whose new pitch is
 out of range

---
 harmonic_inference/data/vector_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index ca2ad2f..b383c09 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -562,7 +562,7 @@ def transpose_note_vector(
     old_pitch = np.arange(NUM_PITCHES[pitch_type])[np.where(note_vector == 1)[0][0]]
     new_pitch = old_pitch + interval
 
-    if not (0 <= old_pitch < NUM_PITCHES[pitch_type]):
+    if not (0 <= new_pitch < NUM_PITCHES[pitch_type]):
         raise ValueError(
             f"Transposed note {decode_note_vector(note_vector)} + {interval} "
             f"outside of valid range (0 - {NUM_PITCHES[pitch_type]}"
-- 
2.43.0


From dffb2fa7418379fd44889a7b7a402d6a98fcf7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:25 +0000
Subject: [PATCH 04/45] fix: keep chord types which a reduction maps to
 themselves in reduced chord vectors

---
 harmonic_inference/data/vector_decoding.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index b383c09..063ffb1 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -445,9 +445,6 @@ def reduce_chord_types(
     new_chord_type_vectors = np.zeros_like(chord_type_vectors)
 
     for from_type, to_type in reduction.items():
-        if from_type == to_type:
-            continue
-
         from_index = from_type.value
         to_index = to_type.value
 
-- 
2.43.0


From 12bf7772aede56432546336b09a85377996f40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:25 +0000
Subject: [PATCH 05/45] fix: decode note vectors in the layout in which they
 are built

---
 harmonic_inference/data/vector_decoding.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 063ffb1..a16a8ff 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -63,15 +63,17 @@ def decode_note_vector(note_vector: np.array) -> Note:
     offset_level = np.where(offset_level_vector == 1)[0][0]
 
     current_idx += 4
-    mc, onset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 3]
-    is_min = note_vector[-1] == 1
+    onset, offset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 5]
+
+    current_idx += 5
+    is_min = note_vector[current_idx] == 1
 
     print(f"Pitch: {get_pitch_string(pitch, pitch_type)}, octave {octave}")
     print(f"Onset level: {onset_level}")
     print(f"Offset level: {offset_level}")
-    print(f"Onset position: ({mc}, {onset})")
+    print(f"Position in chord: {onset} - {offset}")
     print(f"Duration: {dur} (from prev: {dur_from_prev}, to_next: {dur_to_next}")
-    print(f"Is{' not ' if is_min else ' '}lowest pitch")
+    print(f"Is{' ' if is_min else ' not '}lowest pitch")
 
     return Note(pitch, octave, onset, onset_level, dur, None, offset_level, pitch_type)
 
-- 
2.43.0


From bcc10c6ca4a2becffc8f6e80824a4f41f8d7759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:25 +0000
Subject: [PATCH 06/45] fix: decode the mode of a key change vector to a single
 mode

---
 harmonic_inference/data/vector_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index a16a8ff..fb132be 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -107,7 +107,7 @@ def decode_key_change_vector(key_change_vector: np.array) -> Key:
         relative_tonic += MIN_KEY_CHANGE_INTERVAL_TPC
 
     # Absolute mode of next key
-    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1]
+    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1][0]
 
     print(f"Relative tonic: {relative_tonic}, Mode: {key_mode}")
 
-- 
2.43.0


From 10653eb8fc82def91c8bf1d8e07e336a657eb7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 07/45] fix: infer the pitch type of chord vectors which are
 followed by a key change vector

---
 harmonic_inference/data/vector_decoding.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index fb132be..0d74edc 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -210,7 +210,8 @@ def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
     Parameters
     ----------
     vector_length : int
-        The length of a chord vector.
+        The length of a chord vector, or of a chord vector followed by a key change vector
+        and a key change flag (as used by the chord sequence and key datasets).
     pad : bool
         Whether padding is used in the chord vector.
 
@@ -225,7 +226,9 @@ def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
         If no known PitchType results in the given vector length.
     """
     for pitch_type in PitchType:
-        if vector_length == get_chord_vector_length(pitch_type, one_hot=False, pad=pad):
+        chord_length = get_chord_vector_length(pitch_type, one_hot=False, pad=pad)
+        key_change_length = get_key_change_vector_length(pitch_type, one_hot=False)
+        if vector_length in (chord_length, chord_length + key_change_length + 1):
             return pitch_type
 
     raise ValueError(f"Could not find valid pitch type for vector length {vector_length}.")
-- 
2.43.0


From 8b538275b79c969f6f74ba2de7d0276369e606b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:37 +0000
Subject: [PATCH 08/45] fix: keep type, inversion and bass of chords read from
 labels csv rows consistent under reductions

---
 harmonic_inference/data/chord.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/chord.py b/harmonic_inference/data/chord.py
index 5164800..fcd4b85 100644
--- a/harmonic_inference/data/chord.py
+++ b/harmonic_inference/data/chord.py
@@ -643,6 +643,7 @@ class Chord:
                 "It+6": ChordType.MAJOR,
                 "h7": ChordType.HALF_DIM7,
             }[chord_row["type"]]
+            chord_type = reduction[chord_type]
 
             # Harmonic info (root pitch)
             degree = chord_row["degree"].replace("-", "b")
@@ -668,7 +669,7 @@ class Chord:
             root = transpose_pitch(key.relative_tonic, interval, pitch_type=pitch_type)
 
             # How we handle augmented 6th chords
-            inversion = chord_row["inv"]
+            inversion = chord_row["inv"] if use_inversion else 0
             if chord_row["type"] in ["Gr+6", "Fr+6", "It+6"]:
                 inversion = 0
 
@@ -712,8 +713,8 @@ class Chord:
                 get_bass_note(chord_type, root, inversion, pitch_type, modulo=True),
                 key.relative_tonic if use_relative else key.local_tonic,
                 key.relative_mode if use_relative else key.local_mode,
-                reduction[chord_type],
-                inversion if use_inversion else 0,
+                chord_type,
+                inversion,
                 (onset_measure["mc"], onset_beat),
                 onset_level,
                 (offset_measure["mc"], offset_beat),
-- 
2.43.0


From ddbbd9c5da495125d5be19f367e7738a4a3e533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:47 +0000
Subject: [PATCH 09/45] fix: make an emptied hashed beam usable again

---
 harmonic_inference/utils/beam_search_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index d91cc34..6a1d4fd 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -1095,7 +1095,7 @@ class HashedBeam(Beam):
         Empty this beam.
         """
         self.beam = []
-        self.state_dict = []
+        self.state_dict = {}
 
     def __iter__(self) -> Iterator[State]:
         return self.state_dict.values().__iter__()
-- 
2.43.0


From 53140125be00c3389e238b8b49380e59598f75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:10 +0000
Subject: [PATCH 10/45] fix: align the pitch-based CSM prior with the model's
 relative TPC outputs

---
 harmonic_inference/utils/beam_search_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 6a1d4fd..32ede5c 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -473,6 +473,10 @@ class State:
                 reduction=output_reduction,
             )
 
+            # The model's output pitches begin at MIN_RELATIVE_TPC
+            if pitch_type == PitchType.TPC:
+                relative_root -= hc.MIN_RELATIVE_TPC
+
             chord_vector = hu.get_vector_from_chord_type(
                 chord_type,
                 pitch_type,
-- 
2.43.0


From 9196d468126d2f4c3a80b6814625b9571e42a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:10 +0000
Subject: [PATCH 11/45] fix: copy a state's most recent model log-probabilities

---
 harmonic_inference/utils/beam_search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 32ede5c..b190e6c 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -158,6 +158,9 @@ class State:
             csm_log_prior=self.csm_log_prior,
             key_obj=self.key_obj,
             must_key_transition=self._must_key_transition,
+            most_recent_csm=self.most_recent_csm,
+            most_recent_ksm=self.most_recent_ksm,
+            most_recent_ktm=self.most_recent_ktm,
         )
 
     def chord_transition(
-- 
2.43.0


From ac310d926d60972bdfa3b24183c1c1fc82e13380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:20 +0000
Subject: [PATCH 12/45] fix: give the no-key-change probability to the state
 which keeps its key

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d283949..28dda50 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1064,7 +1064,7 @@ class HarmonicInferenceModel:
                         to_ksm_states.append(change_state)
 
                 if can_not_change:
-                    change_state.add_ktm_log_prob(no_change_log_prob * range_length)
+                    state.add_ktm_log_prob(no_change_log_prob * range_length)
                     if current_start == 0 or all_states[state.change_index].fits_in_beam(
                         state, check_hash=True
                     ):
-- 
2.43.0


From 0747c82ef372618f1c99f2d0734b59207b41e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:04 +0000
Subject: [PATCH 13/45] fix: report invalid forced labels with an ArgumentError
 that can be built

---
 harmonic_inference/models/joint_model.py | 37 +++++++++++++++---------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 28dda50..34282eb 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -392,29 +392,33 @@ class HarmonicInferenceModel:
 
             if len(forced_changes) > 0 and max(forced_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced change ({max(forced_changes)}) is beyond the end of the piece"
-                    f" (maximum index {len(self.duration_cache) - 1})."
+                    f" (maximum index {len(self.duration_cache) - 1}).",
                 )
 
             if len(forced_non_changes) > 0 and max(forced_non_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced non-change ({max(forced_non_changes)}) is beyond the end of "
-                    f"the piece (maximum index {len(self.duration_cache) - 1})."
+                    f"the piece (maximum index {len(self.duration_cache) - 1}).",
                 )
 
             # Ensure that no index is both a forced change and a force non-change
             if len(forced_changes & forced_non_changes) > 0:
                 raise ArgumentError(
+                    None,
                     f"{forced_changes & forced_non_changes} are both forced {type_str} "
-                    f"changes and forced {type_str} non-changes."
+                    f"changes and forced {type_str} non-changes.",
                 )
 
             # Ensure each change is at a valid note
             for change_index in forced_changes:
                 if self.duration_cache[change_index - 1] == 0:
                     raise ArgumentError(
+                        None,
                         f"{change_index} is an invalid index for a forced change because it is not "
-                        "the first note at its metrical postiion."
+                        "the first note at its metrical postiion.",
                     )
 
             # Second: check labels for validity
@@ -435,14 +439,16 @@ class HarmonicInferenceModel:
             for (start, end), label_id in forced_labels.items():
                 if label_id < 0 or label_id >= max_id:
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str}_id {label_id} is outside of the valid range for "
-                        f"{type_str}s (0-{max_id})."
+                        f"{type_str}s (0-{max_id}).",
                     )
 
                 valid_indexes = np.isin(forced_ids[start:end], [-1, label_id])
                 if not np.all(valid_indexes):
                     raise ArgumentError(
-                        f"The following indexes are forced to multiple different {type_str}s: ",
+                        None,
+                        f"The following indexes are forced to multiple different {type_str}s: "
                         f"{np.where(valid_indexes == False)[0] + start}",
                     )
 
@@ -455,8 +461,9 @@ class HarmonicInferenceModel:
                     and forced_ids[change_index] != -1
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str} change at index {change_index} but forced {type_str} "
-                        f"is {forced_ids[change_index]} both before and after."
+                        f"is {forced_ids[change_index]} both before and after.",
                     )
 
             for change_index in forced_non_changes:
@@ -465,10 +472,11 @@ class HarmonicInferenceModel:
                     and -1 not in forced_ids[change_index - 1 : change_index + 1]
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced non {type_str} change at index {change_index} but forced "
                         f"{type_str} changes at that index are "
-                        f"({self.forced_chords[change_index - 1]} before and "
-                        f"{self.forced_chords[change_index]} after)."
+                        f"({forced_ids[change_index - 1]} before and "
+                        f"{forced_ids[change_index]} after).",
                     )
 
         # Second, check compatability between chord and key forces
@@ -477,8 +485,9 @@ class HarmonicInferenceModel:
         for change_index in self.forced_key_changes:
             if change_index in self.forced_chord_non_changes:
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but a forced non-chord change."
-                    " This is illegal: all key changes must be accompanied by a chord change."
+                    " This is illegal: all key changes must be accompanied by a chord change.",
                 )
 
             if (
@@ -486,20 +495,22 @@ class HarmonicInferenceModel:
                 and self.forced_chord_ids[change_index] != -1
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but the chord is forced to id "
-                    f"{self.forced_chord_ids[change_index]} both before and after."
+                    f"{self.forced_chord_ids[change_index]} both before and after.",
                 )
 
         # If there is a forced non-chord change, there cannot be a key change
         for change_index in self.forced_chord_non_changes:
             if (
                 self.forced_key_ids[change_index - 1] != self.forced_key_ids[change_index]
-                and -1 not in self.forced_chord_ids[change_index]
+                and -1 not in self.forced_key_ids[change_index - 1 : change_index + 1]
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced non-chord change, but the key changes from"
                     f" {self.forced_key_ids[change_index - 1]} to "
-                    f"{self.forced_key_ids[change_index]} at that index."
+                    f"{self.forced_key_ids[change_index]} at that index.",
                 )
 
     def get_harmony(
-- 
2.43.0


From 739355a2346d464d717396e3d0065627ca8bfcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:47 +0000
Subject: [PATCH 14/45] fix: count the duration of a piece's first input once
 when limiting chord lengths

---
 harmonic_inference/models/joint_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 34282eb..ccba80f 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -725,8 +725,7 @@ class HarmonicInferenceModel:
             start = heapq.heappop(starts)
 
             running_log_prob = 0.0
-            # Special case for start == 0 because it is always invalid, but can have duration > 0
-            running_duration = self.duration_cache[start] if start == 0 else Fraction(0)
+            running_duration = Fraction(0)
             reached_end = True
             forced_chords = set()
             forced_keys = set()
-- 
2.43.0


From b69053f8b2be9af691d1ee96e1ea335a9424ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:42 +0000
Subject: [PATCH 15/45] fix: enforce forced key changes and non-changes in the
 beam search

---
 harmonic_inference/models/joint_model.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index ccba80f..fb63bdc 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -675,6 +675,8 @@ class HarmonicInferenceModel:
             will be modified in place.
         """
         change_probs[list(self.forced_chord_changes)] = 1.0
+        # A key change can only occur together with a chord change
+        change_probs[list(self.forced_key_changes)] = 1.0
         change_probs[list(self.forced_chord_non_changes)] = 0.0
 
     def get_chord_ranges(
@@ -996,6 +998,13 @@ class HarmonicInferenceModel:
                 # Branch
                 for chord_id in chord_priors_argsort[:max_index]:
                     if chord_id == state.chord:
+                        if (
+                            current_start in self.forced_chord_changes
+                            or current_start in self.forced_key_changes
+                        ):
+                            # The ranges may not be rejoined across a forced change
+                            continue
+
                         # Same chord as last range: rejoin a split range
                         new_state = state.rejoin(
                             range_end,
@@ -1062,6 +1071,17 @@ class HarmonicInferenceModel:
                         can_not_change = False
                         can_change = True  # Drop the min_key_change_prob requirement
 
+                # Any key change would occur at the start of the state's chord
+                chord_start = state.prev_state.change_index
+                if chord_start in self.forced_key_changes:
+                    can_not_change = False
+                    can_change = len(forced_key_ids) == 0 or can_change
+                elif chord_start in self.forced_key_non_changes:
+                    can_change = False
+                    can_not_change = state.is_valid(check_key=True) and (
+                        len(forced_key_ids) == 0 or can_not_change
+                    )
+
                 # Make a copy only if necessary
                 change_state = state.copy() if can_change and can_not_change else state
 
-- 
2.43.0


From ac32f3ad0eb4889a77bc96f70e1fb93e4c8653de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:21 +0000
Subject: [PATCH 16/45] fix: keep chord ranges with two different forced chords
 or keys out of the search

---
 harmonic_inference/models/joint_model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index fb63bdc..be93efe 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -751,9 +751,6 @@ class HarmonicInferenceModel:
                 ),
                 start=start + 1,
             ):
-                if invalid[index]:
-                    continue
-
                 # Ensure range doesn't contain multiple different forced chords
                 if forced_chord != -1:
                     forced_chords.add(forced_chord)
@@ -768,6 +765,9 @@ class HarmonicInferenceModel:
                         reached_end = False
                         break
 
+                if invalid[index]:
+                    continue
+
                 # Ensure duration is still <= max_chord_length
                 running_duration += duration
                 if running_duration > self.max_chord_length:
@@ -791,6 +791,12 @@ class HarmonicInferenceModel:
                 # No change can occur
                 running_log_prob += no_change_log_prob
 
+            # The piece's last input is also in a range which reaches the end of the piece
+            if reached_end:
+                forced_chords |= {self.forced_chord_ids[-1]} - {-1}
+                forced_keys |= {self.forced_key_ids[-1]} - {-1}
+                reached_end = len(forced_chords) <= 1 and len(forced_keys) <= 1
+
             # Detect if a chord reaches the end of the piece and add it here if so
             if reached_end:
                 chord_ranges.append((start, len(change_probs)))
-- 
2.43.0


From b9ecc699713fd49b136a5dbdab709b883eef51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:06 +0000
Subject: [PATCH 17/45] fix: apply each model's own chord reductions to its
 inputs during inference

---
 harmonic_inference/data/datasets.py      |  4 ++++
 harmonic_inference/models/joint_model.py | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index e9d8284..4c27dc5 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -690,6 +690,10 @@ class ChordSequenceDataset(HarmonicDataset):
         if not self.use_inversions_input:
             remove_chord_inversions(data["inputs"], pad=False)
 
+        # There are no targets when the model is used for inference
+        if "targets" not in data:
+            return
+
         data["targets"] = reduce_chord_one_hots(
             data["targets"],
             False,
diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index be93efe..ba5cb52 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1177,7 +1177,9 @@ class HarmonicInferenceModel:
             )
 
         # Generate KTM loader
-        reduce = ds.KeyTransitionDataset([], self.key_transition_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeyTransitionDataset(
+            [], **self.key_transition_model.get_dataset_kwargs()
+        ).reduce
         ktm_dataset = ds.HarmonicDataset()
         ktm_dataset.inputs = ktm_inputs
         ktm_dataset.set_hidden_states(ktm_hidden_states)
@@ -1250,7 +1252,7 @@ class HarmonicInferenceModel:
             )
 
         # Generate KSM loader
-        reduce = ds.KeySequenceDataset([], self.key_sequence_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeySequenceDataset([], **self.key_sequence_model.get_dataset_kwargs()).reduce
         ksm_dataset = ds.HarmonicDataset([])
         ksm_dataset.inputs = ksm_inputs
         ksm_dataset.set_hidden_states(ksm_hidden_states)
@@ -1384,8 +1386,8 @@ class HarmonicInferenceModel:
             )
 
         # Generate CSM loader
-        reduce = ds.ChordTransitionDataset(
-            [], self.key_transition_model.get_dataset_kwargs()
+        reduce = ds.ChordSequenceDataset(
+            [], **self.chord_sequence_model.get_dataset_kwargs()
         ).reduce
         csm_dataset = ds.HarmonicDataset([])
         csm_dataset.inputs = csm_inputs
-- 
2.43.0


From 7902560db7ffbe5f31613a0dab94d5177f897dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:01 +0000
Subject: [PATCH 18/45] fix: do not write key change replacements into the
 stored inputs of key datasets

---
 harmonic_inference/data/datasets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 4c27dc5..bd6048b 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -844,10 +844,12 @@ class KeyHarmonicDataset(HarmonicDataset):
             key_change_replacement = self.key_change_replacements[item]
             target = self.targets[item]
 
-            if len(piece_input) < self.max_input_length:
-                padded_input = np.zeros((self.max_input_length + 1, piece_input.shape[1]))
-                padded_input[: len(piece_input)] = piece_input
-                piece_input = padded_input
+        # Always pad into a new array: an extra row is needed for the key change replacement,
+        # which must not be written into the stored inputs
+        padded_length = max(len(piece_input), self.max_input_length or 0) + 1
+        padded_input = np.zeros((padded_length, piece_input.shape[1]))
+        padded_input[: len(piece_input)] = piece_input
+        piece_input = padded_input
 
         # Create target list (if KTD)
         if isinstance(self, KeyTransitionDataset):
-- 
2.43.0


From 4cb8d1cea5342e078b274e579f6dee5ee07aba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:17 +0000
Subject: [PATCH 19/45] fix: read key dataset inputs from h5 files with the
 length of their piece

---
 harmonic_inference/data/datasets.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index bd6048b..8d395d7 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1119,12 +1119,17 @@ def h5_to_dataset(
                     lengths = np.array(h5_file[f"{data}_lengths"])
                     data_list = []
 
+                    # Key datasets have one input per piece, but one input length per key
+                    list_lengths = lengths
+                    if data == "input" and "piece_lengths" in h5_file:
+                        list_lengths = lengths[np.cumsum(h5_file["piece_lengths"]) - 1]
+
                     for chunk_start in tqdm(
-                        range(0, len(lengths), chunk_size),
+                        range(0, len(list_lengths), chunk_size),
                         desc=f"Loading {data} chunks from {h5_path}",
                     ):
                         chunk = h5_file[f"{data}s"][chunk_start : chunk_start + chunk_size]
-                        chunk_lengths = lengths[chunk_start : chunk_start + chunk_size]
+                        chunk_lengths = list_lengths[chunk_start : chunk_start + chunk_size]
                         data_list.extend(
                             [
                                 np.array(item[:length], dtype=np.float16)
-- 
2.43.0


From cb5391ea5cd315a750960001e4590b3d065e49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:28 +0000
Subject: [PATCH 20/45] fix: load piece lengths and target pitch type for
 datasets which stay on disk

---
 harmonic_inference/data/datasets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 8d395d7..f0c3ad5 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1113,6 +1113,11 @@ def h5_to_dataset(
         dataset.in_ram = False
         chunk_size = dataset.chunk_size
 
+        # These are needed (and small enough to load) even if the data itself is not in RAM
+        for key in ["piece_lengths", "target_pitch_type"]:
+            if key in h5_file:
+                setattr(dataset, key, np.array(h5_file[key]))
+
         try:
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
@@ -1143,9 +1148,8 @@ def h5_to_dataset(
                 else:
                     setattr(dataset, f"{data}s", np.array(h5_file[f"{data}s"], dtype=np.float16))
 
-            for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
-                if key in h5_file:
-                    setattr(dataset, key, np.array(h5_file[key]))
+            if "key_change_replacements" in h5_file:
+                dataset.key_change_replacements = np.array(h5_file["key_change_replacements"])
 
             dataset.in_ram = True
 
-- 
2.43.0


From 7e0e33609a66d8bd83e52e0748bb23ea7b4a3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:33 +0000
Subject: [PATCH 21/45] fix: label the chord classifier's outputs with its own
 vocabulary

---
 harmonic_inference/models/joint_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index ba5cb52..3266218 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -269,7 +269,12 @@ class HarmonicInferenceModel:
 
         # Load labels
         self.LABELS = {
-            "chord": hu.get_chord_from_one_hot_index(slice(None, None), self.CHORD_OUTPUT_TYPE),
+            "chord": hu.get_chord_from_one_hot_index(
+                slice(None, None),
+                self.CHORD_OUTPUT_TYPE,
+                use_inversions=self.chord_classifier.use_inversions,
+                reduction=self.chord_classifier.reduction,
+            ),
             "key": hu.get_key_from_one_hot_index(slice(None, None), self.KEY_OUTPUT_TYPE),
             "relative_key": list(
                 itertools.product(
-- 
2.43.0


From 90b34b3a9cb3100f67be16304cee23d1eca1f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:10 +0000
Subject: [PATCH 22/45] fix: find the first and last rows of a piece also in a
 corpus of one file

---
 harmonic_inference/utils/corpus_utils.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index ca41395..30542b1 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -4,7 +4,6 @@ import warnings
 from fractions import Fraction
 from typing import List, Tuple
 
-import numpy as np
 import pandas as pd
 
 from harmonic_inference.data.corpus_constants import (
@@ -71,9 +70,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
 
     # Find potential last measures of each piece
     last_measures = (next_lengths == 0) | [-1 in n for n in measures["next"]]  # Default case
-    last_measures |= np.roll(
-        measures.index.get_level_values("file_id").to_numpy(), -1
-    ) != measures.index.get_level_values("file_id")
+    last_measures |= ~measures.index.get_level_values("file_id").duplicated(keep="last")
 
     next_lengths[last_measures] = 0
 
@@ -94,9 +91,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
     # Remove measures which are unreachable
     if remove_unreachable:
         # Start measures will not be in any next list, but they need to be saved as a special case
-        start_measures = np.roll(
-            measures.index.get_level_values("file_id").to_numpy(), 1
-        ) != measures.index.get_level_values("file_id")
+        start_measures = ~measures.index.get_level_values("file_id").duplicated()
         start_indices = list(measures.index.to_numpy()[start_measures])
 
         # Save to reset type later. Needs to be nullable for the merge to work
@@ -179,10 +174,7 @@ def add_chord_metrical_data(chords: pd.DataFrame, measures: pd.DataFrame) -> pd.
     chords.loc[:, f"{CHORD_ONSET_BEAT}_next"] = chords[CHORD_ONSET_BEAT].shift(-1)
 
     # For the last chord of each piece, it is more complicated
-    last_chords = chords.loc[
-        chords.index.get_level_values("file_id")
-        != np.roll(chords.index.get_level_values("file_id"), -1)
-    ]
+    last_chords = chords.loc[~chords.index.get_level_values("file_id").duplicated(keep="last")]
     last_measures = measures.loc[measures.next.isnull()]
     last_merged = pd.merge(
         last_chords.reset_index(),
-- 
2.43.0


From b18689e219e2be415a59c54c10f92a697d3d1b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:55 +0000
Subject: [PATCH 23/45] fix: load a corpus in which a file has no notes or
 measures

---
 harmonic_inference/data/corpus_reading.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/harmonic_inference/data/corpus_reading.py b/harmonic_inference/data/corpus_reading.py
index b9de122..1190757 100755
--- a/harmonic_inference/data/corpus_reading.py
+++ b/harmonic_inference/data/corpus_reading.py
@@ -101,15 +101,11 @@ def load_clean_corpus_dfs(dir_path: Union[str, Path], count: int = None):
 
     if count is not None:
         files_df = files_df.iloc[:count]
-        measures_df = measures_df.loc[files_df.index]
-        notes_df = notes_df.loc[files_df.index]
-        if chords_df is not None:
-            chords_df = chords_df.loc[files_df.index]
 
     # Bugfix for Couperin piece "next" error
     files_df = files_df.loc[~(files_df["file_name"] == "c11n08_Rondeau.tsv")]
-    measures_df = measures_df.loc[files_df.index]
-    notes_df = notes_df.loc[files_df.index]
+    measures_df = measures_df.loc[measures_df.index.get_level_values(0).isin(files_df.index)]
+    notes_df = notes_df.loc[notes_df.index.get_level_values(0).isin(files_df.index)]
     if chords_df is not None:
         chords_df = chords_df.loc[chords_df.index.get_level_values(0).isin(files_df.index)]
     # End bugfix
-- 
2.43.0


From ef1033693079e4d125878c3359729a33fbcb6deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:06 +0000
Subject: [PATCH 24/45] fix: load pieces with a single note or a single chord

---
 harmonic_inference/data/piece.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 1ec1f9a..f8902b0 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -635,8 +635,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     notes, note_ilocs = np.hsplit(notes_list, 2)
-    notes = np.squeeze(notes)
-    note_ilocs = np.squeeze(note_ilocs).astype(int)
+    notes = np.squeeze(notes, axis=1)
+    note_ilocs = np.squeeze(note_ilocs, axis=1).astype(int)
 
     if chords_df is None:
         # Quick check for pieces without ground truth chords
@@ -670,8 +670,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     chords_list, chord_ilocs = np.hsplit(chords_list, 2)
-    chords_list = np.squeeze(chords_list)
-    chord_ilocs = np.squeeze(chord_ilocs).astype(int)
+    chords_list = np.squeeze(chords_list, axis=1)
+    chord_ilocs = np.squeeze(chord_ilocs, axis=1).astype(int)
 
     # Remove accidentally repeated chords
     non_repeated_mask = get_reduction_mask(
-- 
2.43.0


From 0c7975f6a3105ba3f097a79c90c017c1f1168ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:20 +0000
Subject: [PATCH 25/45] fix: chords within a range which starts before the
 first chord

---
 harmonic_inference/data/piece.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index f8902b0..82b47ed 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -280,12 +280,13 @@ class Piece:
         start_index = bisect.bisect_left(chord_change_indices, start)
         if start_index == len(chord_change_indices) or chord_change_indices[start_index] != start:
             # Subtract 1 to get end of partial chord if exact match is not found
-            start_index -= 1
+            # (or the first chord, if start is before all of the chords)
+            start_index = max(start_index - 1, 0)
 
         if stop is None:
             return chords[start_index:]
 
-        end_index = bisect.bisect_left(chord_change_indices, stop, lo=max(start_index, 0))
+        end_index = bisect.bisect_left(chord_change_indices, stop, lo=start_index)
 
         return chords[start_index:end_index]
 
-- 
2.43.0


From 22315e36462a1f500668d81c1d8904649e235d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:20 +0000
Subject: [PATCH 26/45] fix: dictionaries of pieces without annotations

---
 harmonic_inference/data/piece.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 82b47ed..4ac83ab 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -537,8 +537,10 @@ class ScorePiece(Piece):
         """
         return {
             "notes": [note.to_dict() for note in self.get_inputs()],
-            "chords": [chord.to_dict() for chord in self.get_chords()],
-            "keys": [key.to_dict() for key in self.get_keys()],
+            "chords": (
+                None if self.chords is None else [chord.to_dict() for chord in self.get_chords()]
+            ),
+            "keys": None if self.keys is None else [key.to_dict() for key in self.get_keys()],
             "chord_changes": self.get_chord_change_indices(),
             "chord_ranges": self.get_chord_ranges(),
             "key_changes": self.get_key_change_indices(),
@@ -570,8 +572,12 @@ def get_score_piece_from_dict(
     return ScorePiece(
         measures_df,
         [Note(**note) for note in piece_dict["notes"]],
-        [Chord(**chord) for chord in piece_dict["chords"]],
-        [Key(**key) for key in piece_dict["keys"]],
+        (
+            None
+            if piece_dict["chords"] is None
+            else [Chord(**chord) for chord in piece_dict["chords"]]
+        ),
+        None if piece_dict["keys"] is None else [Key(**key) for key in piece_dict["keys"]],
         piece_dict["chord_changes"],
         piece_dict["chord_ranges"],
         piece_dict["key_changes"],
-- 
2.43.0


From 2b59989e88b3bba1e2d499d62ec3265083499adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:20 +0000
Subject: [PATCH 27/45] fix: chord note inputs without a duration cache

---
 harmonic_inference/data/piece.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 4ac83ab..3e78f07 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -106,8 +106,8 @@ def get_chord_note_input(
     window_offset_index = offset_index + window
 
     # Shift duration_cache
-    dur_from_prevs = [None] + list(duration_cache)
-    dur_to_nexts = list(duration_cache)
+    dur_to_nexts = [None] * len(notes) if duration_cache is None else list(duration_cache)
+    dur_from_prevs = [None] + dur_to_nexts
 
     # Get the notes within the window
     first_note_index = max(window_onset_index, 0)
-- 
2.43.0


From c6b264b1f71f2089ceb91beb08d0293e9f8a2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:10 +0000
Subject: [PATCH 28/45] fix: offsets of score notes from or into incomplete
 measures

---
 harmonic_inference/data/note.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index 36524cc..b07383f 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -473,17 +473,14 @@ class Note:
 
         # Find the offset measure
         offset_measure = onset_measure
-        tmp_duration = note_duration + note_start - onset_measure[MEASURE_OFFSET]
+        tmp_duration = note_duration + note_start
         while tmp_duration >= offset_measure["act_dur"] and not pd.isna(offset_measure["next"]):
             tmp_duration -= offset_measure["act_dur"]
             offset_measure = measures_df.loc[measures_df["mc"] == offset_measure["next"]].iloc[0]
 
-        onset_beat = note_start
+        onset_beat = note_start + onset_measure[MEASURE_OFFSET]
         offset_beat = tmp_duration + offset_measure[MEASURE_OFFSET]
 
-        onset_beat += onset_measure[MEASURE_OFFSET]
-        offset_beat += offset_measure[MEASURE_OFFSET]
-
         levels = [None, None]
 
         for i, (beat, measure) in enumerate(
-- 
2.43.0


From c6d42cc7f2000948dc6ba3b1a48ebe3466dce16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:10 +0000
Subject: [PATCH 29/45] fix: octaves of score notes in the numbering used
 everywhere else

---
 harmonic_inference/data/note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index b07383f..ba7913f 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -506,7 +506,7 @@ class Note:
 
         return Note(
             get_pitch_from_string(m21_note.pitch.name.replace("-", "b"), pitch_type),
-            m21_note.octave,
+            m21_note.pitch.midi // NUM_PITCHES[PitchType.MIDI],
             (onset_measure["mc"], onset_beat),
             onset_level,
             note_duration,
-- 
2.43.0


From 390fdb6e3b37f38d5e668c8f28d7b2f4d0f745fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:10 +0000
Subject: [PATCH 30/45] fix: load scores of a single measure

---
 harmonic_inference/data/piece.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 3e78f07..9891ad9 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -783,7 +783,8 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
     mns = []
 
     # The start of the 2nd measure (the first full measure in the case of an anacrusis)
-    ts_epoch = Fraction(list(m21_score.measureOffsetMap().keys())[1] / 4)
+    measure_starts = list(m21_score.measureOffsetMap().keys())
+    ts_epoch = Fraction(measure_starts[1] / 4) if len(measure_starts) > 1 else Fraction(0)
 
     # Default time signature
     time_signature = "4/4"
-- 
2.43.0


From 8c8c5747bde641dcf265d6fd7caffdf734ae2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:21 +0000
Subject: [PATCH 31/45] fix: place the notes of measures which share a measure
 number

---
 harmonic_inference/data/piece.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 9891ad9..405ed1f 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -882,14 +882,14 @@ def get_notes_from_music_xml(
     levels_cache = defaultdict(dict)
     notes = []
 
-    for measure_mc, measures_list in enumerate(m21_score.measureOffsetMap().values()):
-        measure = measures_list[0]
-
-        if measure.measureNumber not in measures_df["mn"].values:
-            continue
-
-        measure_mc = measures_df.loc[measures_df["mn"] == measure.measureNumber, "mc"].iloc[0]
+    # The measures of measures_df, in order (measure numbers are not always unique)
+    measures = [
+        measures_list[0]
+        for measures_list in m21_score.measureOffsetMap().values()
+        if measures_list[0].measureNumber in measures_df["mn"].values
+    ]
 
+    for measure_mc, measure in zip(measures_df["mc"], measures):
         for note in measure.recurse().notes:
             if note.isChord:
                 chord = note
-- 
2.43.0


From 2ab3cf7b091df25b50038de1eab135c8cb20a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:00 +0000
Subject: [PATCH 32/45] fix: compare annotations with estimates in the pitch
 type of the estimates

---
 harmonic_inference/utils/eval_utils.py | 36 ++++++++++++++------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 30ba8dd..ec347be 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -328,10 +328,10 @@ def evaluate_chords(
     gt_changes = piece.get_chord_change_indices()
     gt_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_labels[start:end] = chord.get_one_hot_index(
+        gt_labels[start:end] = chord.to_pitch_type(pitch_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
+    gt_labels[gt_changes[-1] :] = gt_chords[-1].to_pitch_type(pitch_type).get_one_hot_index(
         relative=False, use_inversion=True, pad=False
     )
 
@@ -452,8 +452,8 @@ def evaluate_keys(
     gt_changes = piece.get_key_change_input_indices()
     gt_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_labels[start:end] = key.get_one_hot_index()
-    gt_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+        gt_labels[start:end] = key.to_pitch_type(pitch_type).get_one_hot_index()
+    gt_labels[gt_changes[-1] :] = gt_keys[-1].to_pitch_type(pitch_type).get_one_hot_index()
 
     keys, changes = state.get_keys()
     estimated_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -557,10 +557,10 @@ def evaluate_chords_and_keys_jointly(
     gt_changes = piece.get_chord_change_indices()
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
+        gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
+    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].to_pitch_type(root_type).get_one_hot_index(
         relative=False, use_inversion=True, pad=False
     )
 
@@ -573,8 +573,8 @@ def evaluate_chords_and_keys_jointly(
     gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+        gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
 
     keys, changes = state.get_keys()
     estimated_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -746,11 +746,13 @@ def get_label_df(
         gt_chords = piece.get_chords()
         gt_changes = piece.get_chord_change_indices()
         for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-            gt_chord_labels[start:end] = chord.get_one_hot_index(
+            gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
                 relative=False, use_inversion=True, pad=False
             )
-        gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-            relative=False, use_inversion=True, pad=False
+        gt_chord_labels[gt_changes[-1] :] = (
+            gt_chords[-1]
+            .to_pitch_type(root_type)
+            .get_one_hot_index(relative=False, use_inversion=True, pad=False)
         )
 
     chords, changes = state.get_chords()
@@ -764,8 +766,8 @@ def get_label_df(
         gt_changes = piece.get_key_change_input_indices()
         gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
         for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-            gt_key_labels[start:end] = key.get_one_hot_index()
-        gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+            gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+        gt_key_labels[gt_changes[-1] :] = gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
 
     keys, changes = state.get_keys()
     estimated_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -995,10 +997,10 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     gt_changes = piece.get_chord_change_indices()
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
+        gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
+    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].to_pitch_type(root_type).get_one_hot_index(
         relative=False, use_inversion=True, pad=False
     )
 
@@ -1011,8 +1013,8 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+        gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
 
     keys, changes = state.get_keys()
     est_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-- 
2.43.0


From 7009ec4678cb468190abffe764aa0a9c2b2295a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:38 +0000
Subject: [PATCH 33/45] fix: evaluate and log pieces whose ground truth is
 unknown

---
 harmonic_inference/utils/eval_utils.py | 89 ++++++++++++++------------
 1 file changed, 48 insertions(+), 41 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index ec347be..a47b0ef 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -52,19 +52,21 @@ def get_results_df(
     """
     labels_list = []
 
-    gt_chords = piece.get_chords()
-    gt_changes = piece.get_chord_change_indices()
-    gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        chord = chord.to_pitch_type(chord_root_type)
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
-            relative=False, use_inversion=True, pad=False
+    gt_chord_labels = np.full(len(piece.get_inputs()), None)
+    if piece.get_chords() is not None:
+        gt_chords = piece.get_chords()
+        gt_changes = piece.get_chord_change_indices()
+        gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+        for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
+            chord = chord.to_pitch_type(chord_root_type)
+            gt_chord_labels[start:end] = chord.get_one_hot_index(
+                relative=False, use_inversion=True, pad=False
+            )
+        gt_chord_labels[gt_changes[-1] :] = (
+            gt_chords[-1]
+            .to_pitch_type(chord_root_type)
+            .get_one_hot_index(relative=False, use_inversion=True, pad=False)
         )
-    gt_chord_labels[gt_changes[-1] :] = (
-        gt_chords[-1]
-        .to_pitch_type(chord_root_type)
-        .get_one_hot_index(relative=False, use_inversion=True, pad=False)
-    )
 
     chords, changes = state.get_chords()
     estimated_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -76,13 +78,17 @@ def get_results_df(
         chord = hu.get_chord_one_hot_index(chord_type, root, chord_root_type, inversion=inv)
         estimated_chord_labels[start:end] = chord
 
-    gt_keys = piece.get_keys()
-    gt_changes = piece.get_key_change_input_indices()
-    gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        key = key.to_pitch_type(key_tonic_type)
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].to_pitch_type(key_tonic_type).get_one_hot_index()
+    gt_key_labels = np.full(len(piece.get_inputs()), None)
+    if piece.get_keys() is not None:
+        gt_keys = piece.get_keys()
+        gt_changes = piece.get_key_change_input_indices()
+        gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+        for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
+            key = key.to_pitch_type(key_tonic_type)
+            gt_key_labels[start:end] = key.get_one_hot_index()
+        gt_key_labels[gt_changes[-1] :] = (
+            gt_keys[-1].to_pitch_type(key_tonic_type).get_one_hot_index()
+        )
 
     keys, changes = state.get_keys()
     estimated_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -109,8 +115,8 @@ def get_results_df(
 
         labels_list.append(
             {
-                "gt_key": key_label_list[gt_key_label],
-                "gt_chord": chord_label_list[gt_chord_label],
+                "gt_key": None if gt_key_label is None else key_label_list[gt_key_label],
+                "gt_chord": None if gt_chord_label is None else chord_label_list[gt_chord_label],
                 "est_key": key_label_list[est_key_label],
                 "est_chord": chord_label_list[est_chord_label],
                 "duration": duration,
@@ -742,7 +748,7 @@ def get_label_df(
     labels_list = []
 
     gt_chord_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
-    if len(piece.get_chords()) > 0:
+    if piece.get_chords() is not None and len(piece.get_chords()) > 0:
         gt_chords = piece.get_chords()
         gt_changes = piece.get_chord_change_indices()
         for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
@@ -761,7 +767,7 @@ def get_label_df(
         estimated_chord_labels[start:end] = chord
 
     gt_key_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
-    if len(piece.get_keys()) > 0:
+    if piece.get_keys() is not None and len(piece.get_keys()) > 0:
         gt_keys = piece.get_keys()
         gt_changes = piece.get_key_change_input_indices()
         gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -993,34 +999,35 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     tonic_type : PitchType
         The pitch type used for the key tonics.
     """
-    gt_chords = piece.get_chords()
-    gt_changes = piece.get_chord_change_indices()
-    gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
-            relative=False, use_inversion=True, pad=False
-        )
-    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].to_pitch_type(root_type).get_one_hot_index(
-        relative=False, use_inversion=True, pad=False
-    )
-
     chords, changes = state.get_chords()
     est_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(chords, changes[:-1], changes[1:]):
         est_chord_labels[start:end] = chord
 
-    gt_keys = piece.get_keys()
-    gt_changes = piece.get_key_change_input_indices()
-    gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
-
     keys, changes = state.get_keys()
     est_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(keys, changes[:-1], changes[1:]):
         est_key_labels[start:end] = key
 
+    gt_chords = piece.get_chords()
+    if gt_chords is None:
+        # Ground truth unknown
+        gt_chord_labels = est_chord_labels
+        gt_key_labels = est_key_labels
+    else:
+        gt_changes = piece.get_chord_change_indices()
+        gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+        for chord, start, end in zip(gt_chords, gt_changes, list(gt_changes[1:]) + [None]):
+            gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
+                relative=False, use_inversion=True, pad=False
+            )
+
+        gt_keys = piece.get_keys()
+        gt_changes = piece.get_key_change_input_indices()
+        gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
+        for key, start, end in zip(gt_keys, gt_changes, list(gt_changes[1:]) + [None]):
+            gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+
     chord_label_list = hu.get_chord_label_list(root_type, use_inversions=True)
     key_label_list = hu.get_key_label_list(tonic_type)
 
-- 
2.43.0


From f48fe4ec4f6cb42d0be5256edf7923a766324a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:09 +0000
Subject: [PATCH 34/45] fix: pair each alteration after an added pitch with its
 own chord tone

---
 harmonic_inference/utils/harmonic_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index a26a884..fd90cc2 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -227,6 +227,7 @@ def get_added_and_removed_pitches(
         if change[0] == "+":
             # Added pitch only - no deletion
             removed_pitches.append("")
+            continue
 
         _, new_change = get_accidental_adjustment(change, in_front=True)
 
-- 
2.43.0


From ff61ae553a3c7cf02c7bc913b804a6250538460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:42 +0000
Subject: [PATCH 35/45] fix: keep every pitch added to an altered chord

---
 harmonic_inference/utils/eval_utils.py     |  2 +-
 harmonic_inference/utils/harmonic_utils.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index a47b0ef..86bd4fc 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -190,7 +190,7 @@ def get_labels_df(piece: Piece, tpc_c: int = hc.TPC_C) -> pd.DataFrame:
 
         mappings_midi = []
         mappings_tpc = []
-        for orig, new in change_mapping.items():
+        for orig, new in change_mapping:
             if orig == "":
                 orig_midi = ""
                 orig_tpc = ""
diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index fd90cc2..a2ff484 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -144,9 +144,9 @@ def get_added_and_removed_pitches(
     changes: str,
     key_tonic_tpc: int,
     key_mode: KeyMode,
-) -> Dict[str, str]:
+) -> List[Tuple[str, str]]:
     """
-    Get a mapping of pitch alterations from the given chord. Pitches are given
+    Get a list of pitch alterations from the given chord. Pitches are given
     and returned with PitchType TPC because accidental-specific math is required
     to correctly apply accidentals.
 
@@ -165,9 +165,9 @@ def get_added_and_removed_pitches(
 
     Returns
     -------
-    changed_pitches : Dict[str, str]
-        A dictionary representing pitch alterations to the given chord. Each entry represents
-        a mapping of original_pitch -> new_pitch, represented as a string of their TPC integer.
+    changed_pitches : List[Tuple[str, str]]
+        A list representing pitch alterations to the given chord. Each entry represents
+        a pair (original_pitch, new_pitch), represented as a string of their TPC integer.
         If original_pitch is empty, then the new_pitch is simply added. If new_pitch begins
         with "+", then it is added in an upper octave.
     """
@@ -253,7 +253,7 @@ def get_added_and_removed_pitches(
             # No removed pitch
             removed_pitches.append("")
 
-    return {removed: added for removed, added in zip(removed_pitches, added_pitches)}
+    return list(zip(removed_pitches, added_pitches))
 
 
 def get_chord_from_one_hot_index(
-- 
2.43.0


From fc930a7700b0887fb47afc84e279aa96489c8385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:58 +0000
Subject: [PATCH 36/45] fix: keep label files aligned with their scores when
 some scores are unlabelled

---
 harmonic_inference/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 79a549e..f353bbc 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -119,7 +119,7 @@ def load_pieces(
 
                 if music_xml_path.exists():
                     xmls.append(music_xml_path)
-                    csvs.append(label_csv_path) if label_csv_path.exists() else None
+                    csvs.append(label_csv_path if label_csv_path.exists() else None)
 
     else:
         files_df, measures_df, chords_df, notes_df = load_clean_corpus_dfs(input_path)
-- 
2.43.0


From bc3023ed29cba98c8881b2aca8868a7e9cb9a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:58 +0000
Subject: [PATCH 37/45] fix: load a single MusicXML file given as a string path

---
 harmonic_inference/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index f353bbc..681f84f 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -102,7 +102,7 @@ def load_pieces(
         csvs = []
 
         if Path(input_path).is_file():
-            xmls = [input_path]
+            xmls = [Path(input_path)]
             csvs = [None]
             input_path = Path(input_path).parent
 
-- 
2.43.0


From 1b3ef19fd90e2ba43171cbad7dbc35a5b5388307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:15 +0000
Subject: [PATCH 38/45] fix: load the raw pieces when the given piece dicts
 file does not exist

---
 harmonic_inference/utils/data_utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 681f84f..d769831 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -128,15 +128,12 @@ def load_pieces(
         file_ids = list(files_df.index) if not xml else list(range(len(xmls)))
 
     # Load from pkl if available
+    piece_dicts = [None] * len(file_ids)
     if piece_dicts_path:
         pkl_path = Path(piece_dicts_path)
         if pkl_path.exists():
             with open(pkl_path, "rb") as pkl_file:
                 piece_dicts = pickle.load(pkl_file)
-    elif xml:
-        piece_dicts = [None] * len(xmls)
-    else:
-        piece_dicts = [None] * len(file_ids)
 
     # Return only one specific file
     if specific_id is not None:
-- 
2.43.0


From 6ddd4993519ae1f92b3518f3b5d5f2c02b5ecccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:15 +0000
Subject: [PATCH 39/45] fix: load piece types from json as piece types

---
 harmonic_inference/utils/data_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index d769831..ea2a8dd 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -13,7 +13,7 @@ from tqdm import tqdm
 
 import harmonic_inference.models.initial_chord_models as icm
 from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
-from harmonic_inference.data.data_types import ChordType, PitchType
+from harmonic_inference.data.data_types import ChordType, PieceType, PitchType
 from harmonic_inference.data.piece import (
     Piece,
     get_measures_df_from_music21_score,
@@ -50,8 +50,10 @@ def load_kwargs_from_json(json_path: Union[Path, str, None]) -> Dict[str, Any]:
 
     for key, value in parsed_kwargs.items():
         if isinstance(value, str):
-            if value.startswith("PitchType") or value.startswith("PieceType"):
+            if value.startswith("PitchType"):
                 parsed_kwargs[key] = PitchType[value[10:]]
+            elif value.startswith("PieceType"):
+                parsed_kwargs[key] = PieceType[value[10:]]
 
         elif isinstance(value, dict) and "reduction" in key:
             parsed_kwargs[key] = {
-- 
2.43.0


From d5a1c338c62bf72d8873ba341e649643a0381289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:15 +0000
Subject: [PATCH 40/45] fix: use the hyperparameter settings of --defaults and
 --fh-defaults in annotate.py

---
 annotate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/annotate.py b/annotate.py
index c0784f8..2d8e726 100644
--- a/annotate.py
+++ b/annotate.py
@@ -307,6 +307,8 @@ if __name__ == "__main__":
 
     ARGS = parser.parse_args()
 
+    set_default_args(ARGS)
+
     if ARGS.threads is not None:
         torch.set_num_threads(ARGS.threads)
 
-- 
2.43.0


From 485b6352bff4b4fc9100681c82d201fef5cba73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:15 +0000
Subject: [PATCH 41/45] fix: raise the documented error for forces positioned
 after the last note

---
 harmonic_inference/utils/forces.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 7e04281..4a7158a 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -58,10 +58,9 @@ def convert_score_positions_to_note_indexes(
     for i, force in enumerate(forces):
         index = bisect.bisect_left(note_positions, force[:2])
 
-        if note_positions[index] != force[:2]:
-            raise ValueError(
-                f"Position {force[:2]} is not a note onset. Closest is {note_positions[index]}"
-            )
+        if index == len(note_positions) or note_positions[index] != force[:2]:
+            closest = note_positions[min(index, len(note_positions) - 1)]
+            raise ValueError(f"Position {force[:2]} is not a note onset. Closest is {closest}")
 
         new_forces[i] = index if len(force) == 2 else (index, force[-1])
 
-- 
2.43.0


From ce856846ebe12d97a362bcb428dcce441ad720f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:36 +0000
Subject: [PATCH 42/45] fix: read forced chords without an inversion as root
 position

---
 harmonic_inference/utils/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 4a7158a..a52ceb8 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -170,7 +170,7 @@ def extract_forces_from_musescore(
                 STRING_TO_CHORD_TYPE[label_df[2]],
                 get_pitch_from_string(label_df[0], PitchType.TPC),
                 PitchType.TPC,
-                inversion=0 if len(label_df[3]) == 0 else int(label_df[3][-1]),
+                inversion=0 if pd.isnull(label_df[3]) else int(label_df[3][-1]),
             ),
         )
         for mc, mn_onset, (_, label_df) in zip(
-- 
2.43.0


From 0c0d8ed66aec7d8cc34460115157315a2563ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:36 +0000
Subject: [PATCH 43/45] fix: read forced seventh chords as such (not as the
 triad they begin with)

---
 harmonic_inference/utils/forces.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index a52ceb8..1e9c22a 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -25,7 +25,9 @@ PITCH_REGEX = r"[A-Ga-g](#{0,2}|b{0,2})"
 
 CHORD_REGEX = re.compile(
     f"C=({PITCH_REGEX})"  # Root
-    "(" + "|".join(list(CHORD_TYPE_TO_STRING.values())).replace("+", "\\+") + ")"  # Chord type
+    "("  # Chord type (longest first, since some are prefixes of others)
+    + "|".join(sorted(CHORD_TYPE_TO_STRING.values(), key=len, reverse=True)).replace("+", "\\+")
+    + ")"
     r"(_[0-3])?"  # Inversion
 )
 KEY_REGEX = re.compile(f"K={PITCH_REGEX}")
-- 
2.43.0


From 1247cd34049f81b3ba66d9006b671702c4f49b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:04 +0000
Subject: [PATCH 44/45] fix: collapse the initial chord prior to the requested
 reduction and inversions

---
 .../models/initial_chord_models.py            | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index dab7fa7..2ab5252 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -7,10 +7,12 @@ from typing import Dict, List, Union
 import numpy as np
 
 from harmonic_inference.data.chord import Chord, get_chord_vector_length
-from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode
+from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode, PitchType
 from harmonic_inference.data.piece import Piece
+from harmonic_inference.utils.harmonic_constants import MIN_RELATIVE_TPC
 from harmonic_inference.utils.harmonic_utils import (
     get_chord_from_one_hot_index,
+    get_chord_inversion_count,
     get_chord_label_list,
     get_chord_one_hot_index,
 )
@@ -108,11 +110,13 @@ class SimpleInitialChordModel:
                 self.reduction = new_reduction
 
         if reduction is not None or not use_inversions:
-            num_labels = get_chord_label_list(
-                self.PITCH_TYPE,
-                use_inversions,
-                relative=True,
-                reduction=reduction,
+            num_labels = len(
+                get_chord_label_list(
+                    self.PITCH_TYPE,
+                    self.use_inversions,
+                    relative=True,
+                    reduction=self.reduction,
+                )
             )
             self.major_prior = np.zeros(num_labels)
             self.minor_prior = np.zeros(num_labels)
@@ -128,14 +132,22 @@ class SimpleInitialChordModel:
                     use_inversions=inversions_present,
                 ),
             ):
+                # One-hot indexes count roots from the lowest relative root
+                if self.PITCH_TYPE == PitchType.TPC:
+                    root -= MIN_RELATIVE_TPC
+
+                # Root position, if the reduced chord type does not have the inversion
+                if inversion >= get_chord_inversion_count(self.reduction[chord_type]):
+                    inversion = 0
+
                 index = get_chord_one_hot_index(
                     chord_type,
                     root,
                     self.PITCH_TYPE,
                     inversion=inversion,
-                    use_inversion=use_inversions,
+                    use_inversion=self.use_inversions,
                     relative=True,
-                    reduction=reduction,
+                    reduction=self.reduction,
                 )
 
                 self.major_prior[index] += major_prior
-- 
2.43.0


From 8525dfd53fca2c46487c34443f5cd525fce9279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:04 +0000
Subject: [PATCH 45/45] fix: decode a note vector without reading a beat out of
 its scalar onset

---
 harmonic_inference/data/vector_decoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 0d74edc..f3b2329 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -75,7 +75,9 @@ def decode_note_vector(note_vector: np.array) -> Note:
     print(f"Duration: {dur} (from prev: {dur_from_prev}, to_next: {dur_to_next}")
     print(f"Is{' ' if is_min else ' not '}lowest pitch")
 
-    return Note(pitch, octave, onset, onset_level, dur, None, offset_level, pitch_type)
+    return Note(
+        pitch, octave, onset, onset_level, dur, None, offset_level, pitch_type, mc_onset=onset
+    )
 
 
 def decode_key_change_vector(key_change_vector: np.array) -> Key:
-- 
2.43.0

