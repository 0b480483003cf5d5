From b7bdd70c0b2ea0768b6cc387cc45d0b7fb0d4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 01/34] fix: accept numpy integers in LCRNG64 jump and
 const_jump

numpy refuses to mix a uint64 scalar with a Python int in & and >>, so jump(np.uint64(n)) raised
TypeError without numba and const_jump(np.uint64(n)) raised it in both modes.
---
 numba_pokemon_prngs/lcrng/lcrng64.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng64.py b/numba_pokemon_prngs/lcrng/lcrng64.py
index 198f65c..4b0fa64 100644
--- a/numba_pokemon_prngs/lcrng/lcrng64.py
+++ b/numba_pokemon_prngs/lcrng/lcrng64.py
@@ -111,18 +111,20 @@ def lcrng64_init(
 
         def jump(self: LCRNG64, adv: np.uint64):
             i = 0
+            adv = np.uint64(adv)
             while adv:
-                if adv & 1:
+                if adv & np.uint64(1):
                     add, mult = jump_table[i]
                     self.seed = np.uint64(
                         np.uint64(self.seed) * np.uint64(mult) + np.uint64(add)
                     )
-                adv >>= 1
+                adv >>= np.uint64(1)
                 i += 1
             return np.uint64(self.seed)
 
         def const_jump(adv: np.uint32, **kwargs) -> Callable[[LCRNG64]]:
             i = 0
+            adv = int(adv)
             mult = np.uint64(1)
             add = np.uint64(0)
             while adv:
-- 
2.43.0


From 19ccb1f2b7dc74c8321772bac03b6acc8fbdf8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 02/34] fix: give ARNG and ARNGR their documented modulo
 distribution

Both are documented (docstrings and README) to support modulo random distribution, but next_rand and
const_rand raised NotImplementedError.
---
 numba_pokemon_prngs/lcrng/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numba_pokemon_prngs/lcrng/__init__.py b/numba_pokemon_prngs/lcrng/__init__.py
index cf71802..ada5dfc 100644
--- a/numba_pokemon_prngs/lcrng/__init__.py
+++ b/numba_pokemon_prngs/lcrng/__init__.py
@@ -52,6 +52,7 @@ class PokeRNGRDiv(LCRNG32):
 @lcrng32_init(
     add=0x1,
     mult=0x6C078965,
+    distribution=LCRNG32RandomDistribution.MODULO,
 )
 class ARNG(LCRNG32):
     """Alternative Pokemon LCRNG with modulo random distribution"""
@@ -60,6 +61,7 @@ class ARNG(LCRNG32):
 @lcrng32_init(
     add=0x1,
     mult=0x6C078965,
+    distribution=LCRNG32RandomDistribution.MODULO,
     reverse=True,
 )
 class ARNGR(LCRNG32):
-- 
2.43.0


From 41bad5ba6bc3c68bf9104c2f79ecdc4cfb90ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 03/34] fix: do not overflow the reciprocal division divisor
 for maximum 1

(0xFFFF // 1) + 1 does not fit 16 bits: next_rand(1) divided by zero.
---
 numba_pokemon_prngs/lcrng/lcrng32.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng32.py b/numba_pokemon_prngs/lcrng/lcrng32.py
index 1fe0bab..88c41ad 100644
--- a/numba_pokemon_prngs/lcrng/lcrng32.py
+++ b/numba_pokemon_prngs/lcrng/lcrng32.py
@@ -163,8 +163,9 @@ def lcrng32_init(
         elif distribution == LCRNG32RandomDistribution.RECIPROCAL_DIVISION:
 
             def next_rand(self: LCRNG32, maximum: np.uint16) -> np.uint16:
-                return np.uint16(self.next_u16()) // np.uint16(
-                    (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                return np.uint16(
+                    np.uint32(self.next_u16())
+                    // np.uint32((np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1))
                 )
 
             def const_rand(
@@ -172,8 +173,9 @@ def lcrng32_init(
             ) -> Callable[[LCRNG32], np.uint16]:
                 @optional_njit(**kwargs)
                 def rand_func(self: LCRNG32) -> np.uint16:
-                    return np.uint16(self.next_u16()) // np.uint16(
-                        (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                    return np.uint16(
+                        np.uint32(self.next_u16())
+                        // np.uint32((np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1))
                     )
 
                 return rand_func
-- 
2.43.0


From 4cae941894d917f90494e5d872e8af149ae77236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 04/34] fix: keep TinyMT outputs within 32 bits when compiled

numba adds uint32 values as uint64, so whenever state[0] + (state[2] >> 8) carried, next() returned a
33-bit value and the bounded draws left their range.
---
 numba_pokemon_prngs/mersenne_twister/tinymt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/tinymt.py b/numba_pokemon_prngs/mersenne_twister/tinymt.py
index cec642b..844e0c9 100644
--- a/numba_pokemon_prngs/mersenne_twister/tinymt.py
+++ b/numba_pokemon_prngs/mersenne_twister/tinymt.py
@@ -75,11 +75,12 @@ class TinyMersenneTwister:
     def temper(self) -> np.uint32:
         """Access and return the next 32-bit tempered rand"""
         temper_0 = self.state[3]
-        temper_1 = self.state[0] + (self.state[2] >> np.uint32(8))
+        # numba promotes uint32 sums to 64 bits, the carry out must be dropped
+        temper_1 = np.uint32(self.state[0] + (self.state[2] >> np.uint32(8)))
 
         temper_0 ^= temper_1
 
-        return temper_0 ^ ((temper_1 & 1) * np.uint32(0x3793FDFF))
+        return np.uint32(temper_0 ^ ((temper_1 & np.uint32(1)) * np.uint32(0x3793FDFF)))
 
     def next_rand(self, maximum: np.uint32) -> np.uint32:
         """Generate and return the next [0, maximum) random uint
-- 
2.43.0


From ffac842f9f37e2e7d79efa00e17e67d4d33d6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 05/34] fix: do not wrap large advances of MersenneTwister and
 SIMDFastMersenneTwister

Without numba the 32-bit sum (or doubled sum) of advances and index wrapped around, so advances near
2**32 (2**31 for SFMT) silently left the generator in the wrong state.
---
 numba_pokemon_prngs/mersenne_twister/mt.py   | 8 ++++----
 numba_pokemon_prngs/mersenne_twister/sfmt.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/mt.py b/numba_pokemon_prngs/mersenne_twister/mt.py
index 8f2ed95..96c22be 100644
--- a/numba_pokemon_prngs/mersenne_twister/mt.py
+++ b/numba_pokemon_prngs/mersenne_twister/mt.py
@@ -38,11 +38,11 @@ class MersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv += np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # 64 bits, as adding the current index does not have to fit 32
+        adv = np.uint64(np.uint32(adv)) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint32:
diff --git a/numba_pokemon_prngs/mersenne_twister/sfmt.py b/numba_pokemon_prngs/mersenne_twister/sfmt.py
index 6e8280a..4a704f9 100644
--- a/numba_pokemon_prngs/mersenne_twister/sfmt.py
+++ b/numba_pokemon_prngs/mersenne_twister/sfmt.py
@@ -297,11 +297,11 @@ class SIMDFastMersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance SIMD-oriented Fast Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv = (adv * np.uint32(2)) + np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # 64 bits, as twice the advances plus the current index does not have to fit 32
+        adv = np.uint64(np.uint32(adv)) * np.uint64(2) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint64:
-- 
2.43.0


From eec3965055789ff755f389bc38739a88734143be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 06/34] fix: let RNGList hold any element type, inherited
 output function and size

The compiled list was always typed uint32, so 16- and 64-bit outputs failed to compile; without numba
output functions inherited from the parent class (next_u16, next_u32) were not found; 16-bit positions
could not address lists of 65536 and more.
---
 numba_pokemon_prngs/rng_list.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index 828ebbf..ce16000 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -46,16 +46,17 @@ def build_rnglist(
             next_function_name
         ]
     else:
-        next_function: Callable[[PRNG], state_type] = rng_class.__dict__[
-            next_function_name
-        ]
+        # getattr also finds functions inherited from the parent class, such as next_u16
+        next_function: Callable[[PRNG], state_type] = getattr(
+            rng_class, next_function_name
+        )
 
     @optional_jitclass(
         {
-            "list": array_type(np.uint32),  # contiguous array
+            "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
-            "head": np.uint16,
-            "pointer": np.uint16,
+            "head": np.uint32,
+            "pointer": np.uint32,
         }
     )
     class SpecificRNGList:
-- 
2.43.0


From 2b5439e24aa9886067063e3a13568f597f472fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 07/34] fix: apply nature modifiers to the stats in their own
 order

---
 numba_pokemon_prngs/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/util.py b/numba_pokemon_prngs/util.py
index f1b3ffd..f910238 100644
--- a/numba_pokemon_prngs/util.py
+++ b/numba_pokemon_prngs/util.py
@@ -45,10 +45,13 @@ def rotate_right_u64(val: np.uint64, count: np.uint8) -> np.uint64:
     return np.uint64((val << (np.uint8(64) - count)) | (val >> count))
 
 
+# natures are ordered by attack, defense, speed, special attack, special defense
+# while stats are ordered by attack, defense, special attack, special defense, speed
+NATURE_STAT_ORDER = (0, 1, 4, 2, 3)
 NATURE_MODIFIERS = np.ones((25, 5), np.float32)
 for i in range(25):
-    NATURE_MODIFIERS[i][i % 5] -= 0.1
-    NATURE_MODIFIERS[i][i // 5] += 0.1
+    NATURE_MODIFIERS[i][NATURE_STAT_ORDER[i % 5]] -= 0.1
+    NATURE_MODIFIERS[i][NATURE_STAT_ORDER[i // 5]] += 0.1
 
 
 @optional_njit(return_type(np.uint16, (np.uint16, np.uint8, np.uint8)))
-- 
2.43.0


From 8e67a3fc7566d474034ea1cf1e361f52f6d70c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 08/34] fix: let cute charm act on species with two genders

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 85a8aa6..e0f9af2 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -94,9 +94,9 @@ class WildGenerator3:
             info = self.personal_info_table[species]
             if self.lead == Lead.CUTE_CHARM_M or self.lead == Lead.CUTE_CHARM_F:
                 if 0 < info.gender_ratio < 254:
-                    cute_charm = False
-                else:
                     cute_charm = rand_3(go) != 0
+                else:
+                    cute_charm = False
 
             # pokeblocks
             if rse_safari:
-- 
2.43.0


From 4f98a54fc0c83ab79ed75ae10f7385af95993163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 09/34] fix: keep advancing past frames whose rock smash check
 fails

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index e0f9af2..684138e 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -78,6 +78,7 @@ class WildGenerator3:
         rng.jump(initial_advances + delay)
         for advance in range(initial_advances, initial_advances + max_advances):
             go.re_init(rng.seed)
+            rng.next()
 
             # RSE uses main rng to check for rock smash encounters
             if rse and self.encounter == Encounter.ROCK_SMASH and rand_2880(go) >= rate:
@@ -144,6 +145,4 @@ class WildGenerator3:
 
             states.append(state)
 
-            rng.next()
-
         return states
-- 
2.43.0


From 8050b9eb41e523148b68eef2165686c2491894a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 10/34] fix: report the rate of the encounter type asked for

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index da621d9..2506c08 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -193,10 +193,14 @@ def get_encounter_rate(
     encounter_area: EncounterArea3, encounter_type: Encounter
 ) -> np.uint8:
     """Get encounter rate"""
-    if encounter_type == Encounter.GRASS:
-        return encounter_area.fish_rate
     if encounter_type == Encounter.ROCK_SMASH:
         return encounter_area.rock_rate
     if encounter_type == Encounter.SURFING:
         return encounter_area.water_rate
+    if (
+        encounter_type == Encounter.OLD_ROD
+        or encounter_type == Encounter.GOOD_ROD
+        or encounter_type == Encounter.SUPER_ROD
+    ):
+        return encounter_area.fish_rate
     return encounter_area.land_rate
-- 
2.43.0


From d8408acc165e0fadb2d8e94bdb64597ec9f4b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 11/34] fix: let static attract electric types in every game

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index 2506c08..049c79d 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -127,23 +127,7 @@ def get_modified_slots(
     if lead == Lead.MAGNET_PULL:
         lead_type = 8
     elif lead == Lead.STATIC:
-        lead_type = (
-            13
-            if game
-            & (
-                Game.RUBY
-                | Game.SAPPHIRE
-                | Game.EMERALD
-                | Game.FIRE_RED
-                | Game.LEAF_GREEN
-                | Game.DIAMOND
-                | Game.PEARL
-                | Game.PLATINUM
-                | Game.HEART_GOLD
-                | Game.SOUL_SILVER
-            )
-            else 12
-        )
+        lead_type = 12
     elif lead == Lead.HARVEST:
         lead_type = 11
     elif lead == Lead.FLASH_FIRE:
-- 
2.43.0


From 21d5ae49b800ac772f8589c4fec78d7bf5ff0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 12/34] fix: support bare @optional_njit without numba

---
 numba_pokemon_prngs/compilation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 80ffd70..fc3783b 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -117,8 +117,8 @@ else:
         return np.ndarray
 
     def return_type(output_type, input_types):
-        """Function that takes inputs and returns the return type based on the output type"""
-        return lambda *args: output_type
+        """Signatures are not used outside of numba"""
+        return None
 
     # pylint enable=unused-argument
 
@@ -167,7 +167,9 @@ def optional_njit(signature_or_function=None, locals=None, **options):
             **options,
         )
 
-    # TODO: support @optional_njit w/o arguments provided
+    # @optional_njit w/o arguments provided
+    if callable(signature_or_function):
+        return signature_or_function
 
     def wrap(func):
         return func
-- 
2.43.0


From a3c1bfb75c2ef93a2afe93e6cef02e6b18c57883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 13/34] fix: keep the spec given to optional_jitclass by
 keyword

---
 numba_pokemon_prngs/compilation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index fc3783b..536ca85 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -138,8 +138,8 @@ def optional_jitclass(cls_or_spec=None, spec=None):
         if cls_or_spec is None:
 
             def wrap(cls):
-                spec = convert_spec_cls(None, cls)
-                return numba.experimental.jitclass(cls_or_spec=cls, spec=spec)
+                full_spec = convert_spec_cls(spec, cls)
+                return numba.experimental.jitclass(cls_or_spec=cls, spec=full_spec)
 
             return wrap
 
-- 
2.43.0


From 08adc6eb2a63b070a4501abc1207356dc75c6cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 14/34] fix: keep hidden power strength an integer without
 numba

---
 numba_pokemon_prngs/gen3/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/state.py b/numba_pokemon_prngs/gen3/state.py
index e00c228..f4ff347 100644
--- a/numba_pokemon_prngs/gen3/state.py
+++ b/numba_pokemon_prngs/gen3/state.py
@@ -66,7 +66,7 @@ class State:
                 max_iv = self.ivs[ORDER[index]]
 
         self.hidden_power = hidden_power_val * 15 // 63
-        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 / 63)
+        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 // 63)
         self.characteristic = (char_index * 5) + (max_iv % 5)
 
 
-- 
2.43.0


From a0002c55395b96d52b6cdacb566efb02baeb13dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 15/34] fix: return gender as a number without numba

---
 numba_pokemon_prngs/gen3/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/util.py b/numba_pokemon_prngs/gen3/util.py
index 89fa0f0..cd230aa 100644
--- a/numba_pokemon_prngs/gen3/util.py
+++ b/numba_pokemon_prngs/gen3/util.py
@@ -13,7 +13,7 @@ def get_gender(pid: np.uint32, gender_ratio: np.uint8):
         return 1
     if gender_ratio == 0:
         return 0
-    return (pid & 0xFF) < gender_ratio
+    return 1 if (pid & 0xFF) < gender_ratio else 0
 
 
 @optional_njit(return_type(np.uint8, (np.uint32, np.uint16)))
-- 
2.43.0


From 9bfc938e10d800240f44f9c5853f25da2d510323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 16/34] fix: give Game.DIAMOND its own flag

---
 numba_pokemon_prngs/enums/game.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/enums/game.py b/numba_pokemon_prngs/enums/game.py
index a6a7025..d2eb9c7 100644
--- a/numba_pokemon_prngs/enums/game.py
+++ b/numba_pokemon_prngs/enums/game.py
@@ -14,7 +14,7 @@ class Game(IntEnum):
     LEAF_GREEN = 1 << 4
     GALES = 1 << 5
     COLOSSEUM = 1 << 6
-    DIAMOND = 1 << 9
+    DIAMOND = 1 << 7
     PEARL = 1 << 8
     PLATINUM = 1 << 9
     HEART_GOLD = 1 << 10
-- 
2.43.0


From fac4074295fd78413d5035f419e0a334b9420dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 17/34] fix: return the personal table of Platinum for
 Game.PLATINUM

---
 numba_pokemon_prngs/data/personal/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numba_pokemon_prngs/data/personal/__init__.py b/numba_pokemon_prngs/data/personal/__init__.py
index ea9fb4a..b0bce37 100644
--- a/numba_pokemon_prngs/data/personal/__init__.py
+++ b/numba_pokemon_prngs/data/personal/__init__.py
@@ -89,6 +89,8 @@ def get_info_table(game: Game):
         return PERSONAL_INFO_LG
     if game & (Game.DIAMOND | Game.PEARL):
         return PERSONAL_INFO_DP
+    if game & (Game.PLATINUM):
+        return PERSONAL_INFO_PT
     if game & (Game.BLACK | Game.WHITE):
         return PERSONAL_INFO_BW
     if game & (Game.BLACK2 | Game.WHITE2):
-- 
2.43.0


From 74917045c4edda470c6427e01cc17ab088c33687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 18/34] fix: let EncounterAreaLA.calc_slot run without numba
 and with enum members

---
 numba_pokemon_prngs/data/encounter/__init__.py          | 2 +-
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index e3771bb..1313be5 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -302,7 +302,7 @@ def encounter_tables_la_decode(regular_dict):
     for key, value in regular_dict.items():
         table_id, slots = value
         value = EncounterAreaLA(np.uint64(table_id), len(slots))
-        value.slots = slots
+        value.slots[:] = slots
         map_encounter_area_lookup[np.uint64(key)] = value
     return map_encounter_area_lookup
 
diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 8301b7b..ca766fb 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -26,7 +26,8 @@ class SlotLA:
 SlotLA.dtype: np.dtype
 
 # numba doesnt like SlotLA.dtype
-SlotLA_dtype = SlotLA.dtype
+# np.record gives single slots attribute access with and without numba
+SlotLA_dtype = np.dtype((np.record, SlotLA.dtype))
 
 
 @optional_jitclass
@@ -43,9 +44,9 @@ class EncounterAreaLA:
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
-            self.slots.base_probability
-            * self.slots.time_multipliers[:, time]
-            * self.slots.weather_multipliers[:, weather]
+            self.slots["base_probability"]
+            * self.slots["time_multipliers"][:, np.uint8(time)]
+            * self.slots["weather_multipliers"][:, np.uint8(weather)]
         )
         scaled_rand = rand * np.sum(probabilities)
         for i, probability in enumerate(probabilities):
-- 
2.43.0


From 9b5938d11586613fdbcbce605334e49a0c208426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 19/34] fix: never choose an impossible slot in
 EncounterAreaLA.calc_slot

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index ca766fb..6721365 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -49,8 +49,12 @@ class EncounterAreaLA:
             * self.slots["weather_multipliers"][:, np.uint8(weather)]
         )
         scaled_rand = rand * np.sum(probabilities)
+        slot_index = len(probabilities) - 1
         for i, probability in enumerate(probabilities):
+            # rounding may exhaust the slots, the last one possible is chosen then
+            if probability > 0:
+                slot_index = i
             if scaled_rand < probability:
                 break
             scaled_rand -= probability
-        return self.slots[i]
+        return self.slots[slot_index]
-- 
2.43.0


From 48a72c57133772d7b785de22fb4930ba72fc5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 20/34] fix: return the default for strings absent from a
 FlatBuffer

---
 numba_pokemon_prngs/data/fbs/flatbuffer_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
index 2137ceb..78cb635 100644
--- a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
+++ b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
@@ -136,13 +136,13 @@ class FlatBufferObject:
 
     def read_string(self, position: int, default=None):
         """Read a string at position"""
-        array = default
         pos_offset = self._table.Offset(position)
         if pos_offset:
             array_offset = self._table.Vector(pos_offset)
             array_len = self._table.VectorLen(pos_offset)
             array = self._table.Bytes[array_offset : array_offset + array_len]
-        return array.decode("utf-8")
+            return array.decode("utf-8")
+        return default
 
     def read_init_string(self, default=None):
         """Read a string at the position of self._counter and increment the counter"""
-- 
2.43.0


From f4fc6ede2b4dbbd74ad07fbee6e785fee6cd9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 21/34] fix: write encounter caches atomically

---
 numba_pokemon_prngs/data/encounter/__init__.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index 1313be5..9f33609 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -4,6 +4,7 @@ import re
 import json
 import pickle
 import os
+import tempfile
 import pathlib
 import importlib.resources as pkg_resources
 import numpy as np
@@ -41,11 +42,18 @@ def pickle_cached(filename: str, encode = None, decode = None):
                             return decode(data)
                         return data
             result = function(*args, **kwargs)
-            with open(pkl_filename, "wb+") as pickled_file:
-                if encode is not None:
-                    pickled_file.write(pickle.dumps(encode(result)))
-                else:
-                    pickle.dump(result, pickled_file)
+            # write aside so that an interrupted write never leaves a partial cache
+            temp_file, temp_filename = tempfile.mkstemp(dir=cache_dir)
+            try:
+                with os.fdopen(temp_file, "wb") as pickled_file:
+                    if encode is not None:
+                        pickled_file.write(pickle.dumps(encode(result)))
+                    else:
+                        pickle.dump(result, pickled_file)
+                os.replace(temp_filename, pkl_filename)
+            except BaseException:
+                os.remove(temp_filename)
+                raise
             return result
         return wrapped
     return wrapper
-- 
2.43.0


From cabbbd4206e0f09f5fc989c6f4cc2db693b7d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 22/34] fix: start each encounter slot range where the last one
 ends

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index 049c79d..fdc54f3 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -19,6 +19,8 @@ def compute_table(ranges: tuple[int], greater: bool = False) -> np.array:
     for i, range_val in enumerate(ranges):
         for r_val in range(r_val, range_val, -1 if greater else 1):
             table[r_val] = i
+        # the next range starts where this one ends
+        r_val = range_val
 
     return table
 
-- 
2.43.0


From e13a7db21f3fc988596b994c3d2aceaf04ccfc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 23/34] fix: convert numpy annotations of classes decorated
 with a positional spec

---
 numba_pokemon_prngs/compilation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 536ca85..402197e 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -131,8 +131,8 @@ def optional_jitclass(cls_or_spec=None, spec=None):
             and spec is None
             and not isinstance(cls_or_spec, type)
         ):
-            cls_or_spec = convert_spec(cls_or_spec)
-        elif spec is not None:
+            cls_or_spec, spec = None, cls_or_spec
+        if spec is not None:
             spec = convert_spec(spec)
 
         if cls_or_spec is None:
-- 
2.43.0


From 489b2ce3c8e3e09276fd151acfd3116edce9edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 24/34] fix: read generation 1 moves, growth rate and TMs from
 their own bytes

---
 numba_pokemon_prngs/data/personal/personal_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/personal_info.py b/numba_pokemon_prngs/data/personal/personal_info.py
index e879a2c..98a177c 100644
--- a/numba_pokemon_prngs/data/personal/personal_info.py
+++ b/numba_pokemon_prngs/data/personal/personal_info.py
@@ -34,13 +34,14 @@ class PersonalInfo1:
     type_2: U8
     catch_rate: U8
     base_exp: U8
-    _padding: unused_bytes(6)
+    _padding_0: unused_bytes(5)
     move_1: U8
     move_2: U8
     move_3: U8
     move_4: U8
     exp_growth: U8
     tm_hm: unused_bytes(7)
+    _padding_1: unused_bytes(1)
 
 
 PersonalInfo1.dtype: np.dtype
-- 
2.43.0


From 5677421866584565a1960904dd60d7a5e1022d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 25/34] fix: read generation 2 hatch cycles from their own byte

---
 numba_pokemon_prngs/data/personal/personal_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/personal_info.py b/numba_pokemon_prngs/data/personal/personal_info.py
index 98a177c..4eb4bd9 100644
--- a/numba_pokemon_prngs/data/personal/personal_info.py
+++ b/numba_pokemon_prngs/data/personal/personal_info.py
@@ -66,8 +66,9 @@ class PersonalInfo2:
     item_1: U8
     item_2: U8
     gender_ratio: U8
+    _padding_0: unused_bytes(1)
     hatch_cycles: U8
-    _padding: unused_bytes(7)
+    _padding_1: unused_bytes(6)
     exp_growth: U8
     egg_group: U8
     tm_hm: unused_bytes(8)
-- 
2.43.0


From b44396978711456e4dd3a67005e08aeec718ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 26/34] fix: cache functions called with keyword or default
 arguments

---
 numba_pokemon_prngs/data/encounter/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index 9f33609..d4a582a 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -2,6 +2,7 @@
 
 import re
 import json
+import inspect
 import pickle
 import os
 import tempfile
@@ -31,8 +32,14 @@ def pickle_cached(filename: str, encode = None, decode = None):
     filename = cache_dir + "/" + filename
     pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)
     def wrapper(function):
+        signature = inspect.signature(function)
         def wrapped(*args, **kwargs):
-            pkl_filename = filename.format(*args, **kwargs)
+            # however the arguments were passed, the same ones share an entry
+            bound = signature.bind(*args, **kwargs)
+            bound.apply_defaults()
+            pkl_filename = filename.format(
+                *bound.args, **{**bound.arguments, **bound.kwargs}
+            )
             if os.path.exists(pkl_filename):
                 with open(pkl_filename, "rb") as pickled_file:
                     data = pickled_file.read()
-- 
2.43.0


From c37ebfa7b2520a42a9006a381cd1be4afbf376dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 27/34] fix: cache in directories whose names contain braces

---
 numba_pokemon_prngs/data/encounter/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index d4a582a..a0086a5 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -29,7 +29,6 @@ from ...fnv import fnv1a_64
 def pickle_cached(filename: str, encode = None, decode = None):
     """Cache results of a function next to the executable"""
     cache_dir = user_cache_dir("numba_pokemon_prngs", "Lincoln-LM")
-    filename = cache_dir + "/" + filename
     pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)
     def wrapper(function):
         signature = inspect.signature(function)
@@ -37,7 +36,7 @@ def pickle_cached(filename: str, encode = None, decode = None):
             # however the arguments were passed, the same ones share an entry
             bound = signature.bind(*args, **kwargs)
             bound.apply_defaults()
-            pkl_filename = filename.format(
+            pkl_filename = cache_dir + "/" + filename.format(
                 *bound.args, **{**bound.arguments, **bound.kwargs}
             )
             if os.path.exists(pkl_filename):
-- 
2.43.0


From 02d65e9e80a4026ddcc78279c13134d75be353e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 28/34] fix: 32-bit jumps take any integer type

---
 numba_pokemon_prngs/lcrng/lcrng32.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numba_pokemon_prngs/lcrng/lcrng32.py b/numba_pokemon_prngs/lcrng/lcrng32.py
index 88c41ad..cbd9e86 100644
--- a/numba_pokemon_prngs/lcrng/lcrng32.py
+++ b/numba_pokemon_prngs/lcrng/lcrng32.py
@@ -114,6 +114,7 @@ def lcrng32_init(
             return np.uint32(self.seed)
 
         def jump(self: LCRNG32, adv: np.uint32):
+            adv = np.uint32(adv)
             i = 0
             while adv:
                 if adv & 1:
@@ -126,6 +127,7 @@ def lcrng32_init(
             return np.uint32(self.seed)
 
         def const_jump(adv: np.uint32, **kwargs) -> Callable[[LCRNG32]]:
+            adv = int(adv)
             i = 0
             mult = np.uint32(1)
             add = np.uint32(0)
-- 
2.43.0


From 3135fe008119910ed055ecd85309d9e1ef13da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 29/34] fix: modular inverses of numpy integers

---
 numba_pokemon_prngs/compatability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/compatability.py b/numba_pokemon_prngs/compatability.py
index 00a5df5..23dabda 100644
--- a/numba_pokemon_prngs/compatability.py
+++ b/numba_pokemon_prngs/compatability.py
@@ -14,6 +14,7 @@ if sys.version_info.minor < 8:
             g_val, y_val, x_val = extended_gcd(b_val % a_val, a_val)
             return (g_val, x_val - (b_val // a_val) * y_val, y_val)
 
+        value, modulus = int(value), int(modulus)
         gcd, inv, _ = extended_gcd(value, modulus)
         if gcd != 1:
             raise ValueError("base is not invertible for the given modulus")
@@ -23,4 +24,4 @@ else:
 
     def mod_inv(value, modulus):
         """Compute the modular multiplicative inverse of value under mod modulus"""
-        return pow(value, -1, modulus)
+        return pow(int(value), -1, int(modulus))
-- 
2.43.0


From 2f365e57fc8294f1f162f74cb8c3fb270152529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 30/34] fix: bit, stat and PID helpers take any integer type
 without numba

---
 numba_pokemon_prngs/gen3/util.py | 4 ++++
 numba_pokemon_prngs/util.py      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/numba_pokemon_prngs/gen3/util.py b/numba_pokemon_prngs/gen3/util.py
index cd230aa..799ff7d 100644
--- a/numba_pokemon_prngs/gen3/util.py
+++ b/numba_pokemon_prngs/gen3/util.py
@@ -7,6 +7,7 @@ from ..compilation import optional_njit, return_type
 @optional_njit(return_type(np.uint8, (np.uint32, np.uint8)))
 def get_gender(pid: np.uint32, gender_ratio: np.uint8):
     """Get gender based on pid and gender ratio"""
+    pid = np.uint32(pid)
     if gender_ratio == 255:
         return 2
     if gender_ratio == 254:
@@ -19,6 +20,8 @@ def get_gender(pid: np.uint32, gender_ratio: np.uint8):
 @optional_njit(return_type(np.uint8, (np.uint32, np.uint16)))
 def get_shiny(pid: np.uint32, tsv: np.uint16):
     """Get shiny type based on pid and full tsv"""
+    pid = np.uint32(pid)
+    tsv = np.uint16(tsv)
     psv = (pid >> 16) ^ (pid & 0xFFFF)
     if tsv == psv:
         return 2
@@ -30,6 +33,7 @@ def get_shiny(pid: np.uint32, tsv: np.uint16):
 @optional_njit(return_type(np.bool_, (np.uint32, np.uint8)))
 def unown_check(pid: np.uint32, form: np.uint8):
     """Verify unown form"""
+    pid = np.uint32(pid)
     letter = (
         ((pid & 0x3000000) >> 18)
         | ((pid & 0x30000) >> 12)
diff --git a/numba_pokemon_prngs/util.py b/numba_pokemon_prngs/util.py
index f910238..a1ab499 100644
--- a/numba_pokemon_prngs/util.py
+++ b/numba_pokemon_prngs/util.py
@@ -57,6 +57,7 @@ for i in range(25):
 @optional_njit(return_type(np.uint16, (np.uint16, np.uint8, np.uint8)))
 def compute_stat(stat: np.uint16, nature: np.uint8, index: np.int8):
     """Compute stat after nature modifier"""
+    index = np.int8(index)
     return np.uint16(np.float32(stat) * NATURE_MODIFIERS[nature][index - 1])
 
 
@@ -66,6 +67,7 @@ HEX_LOOKUP = np.array([f"{i:02X}" for i in range(256)], dtype=np.str_)
 @optional_njit(return_type(np.str_, (np.uint32,)))
 def hex_32(num: np.uint32) -> np.str_:
     """Display 32-bit number as a 0 padded hex string"""
+    num = np.uint32(num)
     return (
         HEX_LOOKUP[num >> 24]
         + HEX_LOOKUP[(num >> 16) & 0xFF]
-- 
2.43.0


From 3acd5b784e0ccbb155383b4c2f94cf9ad6c4f759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 31/34] fix: wild generator takes any integer type and wraps
 advances like the games

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 684138e..02f3f1c 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -43,7 +43,7 @@ class WildGenerator3:
         self.lead = (
             np.uint8(lead) if (self.game & Game.EMERALD) else np.uint8(Lead.NONE)
         )
-        self.tsv = np.uint16(tid ^ sid)
+        self.tsv = np.uint16(tid) ^ np.uint16(sid)
         self.personal_info_table = get_info_table_3(self.game)
 
     def cute_charm_check(self, pid: np.uint32, info: PersonalInfo3) -> np.bool_:
@@ -75,7 +75,10 @@ class WildGenerator3:
         cute_charm = False
         rng = PokeRNGMod(seed)
         go = PokeRNGMod(0)
-        rng.jump(initial_advances + delay)
+        rng.jump(initial_advances)
+        rng.jump(delay)
+        initial_advances = np.uint64(initial_advances)
+        max_advances = np.uint64(max_advances)
         for advance in range(initial_advances, initial_advances + max_advances):
             go.re_init(rng.seed)
             rng.next()
-- 
2.43.0


From 9ba6f59b53155edba84f37d006e81bc0ba604e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:21 +0000
Subject: [PATCH 32/34] fix: decorators leave the caller's spec and locals as
 they were

---
 numba_pokemon_prngs/compilation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 402197e..e1447ad 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -79,13 +79,11 @@ if USE_NUMBA:
 
     def convert_spec(spec):
         """Convert a spec containing numpy types to use numba types"""
-        for attr, py_type in spec.copy().items():
-            spec[attr] = convert_to_numba(py_type)
-        return spec
+        return {attr: convert_to_numba(py_type) for attr, py_type in spec.items()}
 
     def convert_spec_cls(spec, cls):
         """Convert a spec built from type hints containing numpy types to use numba types"""
-        spec = spec or {}
+        spec = dict(spec or {})
         for attr, py_type in get_type_hints(cls).items():
             spec[attr] = convert_to_numba(py_type)
         return spec
-- 
2.43.0


From 0ac7bc87f30ddbcb0afe5b44741ed4adf40a8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 33/34] fix: rotate_u64 by 0 or 64 as a constant in compiled
 code

Compiled, a shift of 64 bits by 64 is undefined, so a caller's own compiled
function rotating by a count of 0 or 64 known at compile time got 0.
---
 numba_pokemon_prngs/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/util.py b/numba_pokemon_prngs/util.py
index a1ab499..f5b9283 100644
--- a/numba_pokemon_prngs/util.py
+++ b/numba_pokemon_prngs/util.py
@@ -34,7 +34,9 @@ def rotate_left_u64(val: np.uint64, count: np.uint8) -> np.uint64:
     """Rotate bits left by count"""
     val = np.uint64(val)
     count = np.uint8(count)
-    return np.uint64((val << count) | (val >> (np.uint8(64) - count)))
+    # a compiled shift by 64 is undefined
+    inverse = (np.uint8(64) - count) & np.uint8(63)
+    return np.uint64((val << (count & np.uint8(63))) | (val >> inverse))
 
 
 @optional_njit(return_type(np.uint64, (np.uint64, np.uint8)), locals={"val": np.uint64})
@@ -42,7 +44,9 @@ def rotate_right_u64(val: np.uint64, count: np.uint8) -> np.uint64:
     """Rotate bits left by count"""
     val = np.uint64(val)
     count = np.uint8(count)
-    return np.uint64((val << (np.uint8(64) - count)) | (val >> count))
+    # a compiled shift by 64 is undefined
+    inverse = (np.uint8(64) - count) & np.uint8(63)
+    return np.uint64((val << inverse) | (val >> (count & np.uint8(63))))
 
 
 # natures are ordered by attack, defense, speed, special attack, special defense
-- 
2.43.0


From 7a9f09fb3121f2d92ede5ff090d4f083af129593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 34/34] fix: lists of outputs and tables work with
 NUMBA_DISABLE_JIT set

numba's own switch leaves classes uncompiled, so there is no class_type to
build a list of outputs on; the package then does without numba.
---
 numba_pokemon_prngs/options.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/numba_pokemon_prngs/options.py b/numba_pokemon_prngs/options.py
index 0b21398..118f52c 100644
--- a/numba_pokemon_prngs/options.py
+++ b/numba_pokemon_prngs/options.py
@@ -12,3 +12,9 @@ if USE_NUMBA and importlib.util.find_spec("numba") is None:
         "or is missing. Defaulting to not using numba."
     )
     USE_NUMBA = False
+
+if USE_NUMBA:
+    from numba import config
+
+    # there are no compiled classes to build on when numba itself is told not to compile
+    USE_NUMBA = not config.DISABLE_JIT
-- 
2.43.0

