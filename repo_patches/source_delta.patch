From 8e4bd66c44a0ed9ac2b116ffbcf6e69047b63643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 01/28] fix: freeze the table state recorded with each decision

The state objects kept references to the arrays and lists that process()
keeps updating, so every decision of a round showed the end of the round.
The state after a call also predates the call's own effects (open hand,
ippatsu, upgraded pon).
---
 MahjongAI/process_xml.py | 27 ++++++++++++++-------------
 MahjongAI/state.py       | 13 +++++++------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5df14da..7aba414 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -220,6 +220,20 @@ def process(file_path: str, verbose: bool = False):
                 if acquired is not None:
                     hand_tensors_full[player][TILE2IDX[acquired]] += 1.0
 
+                if naki.from_who() != 0:
+                    is_menzen[player] = 0
+                if sum(ippatsu):
+                    ippatsu = [0] * 4
+
+                if naki.is_kakan():
+                    # remove corresponding pon from melds
+                    for i, meld in enumerate(melds[player]):
+                        if meld.is_pon():
+                            color, number, *_ = meld.pattern_pon()
+                            if color * 9 + number == exposed[0] // 4:
+                                melds[player].pop(i)
+                                break
+
                 stateObj = StateObject(
                     remaining_turns=remaining_tsumo,
                     hand_tensor=hand_tensors[player],
@@ -242,21 +256,8 @@ def process(file_path: str, verbose: bool = False):
                     player=player,
                 )
 
-                if naki.from_who() != 0:
-                    is_menzen[player] = 0
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
-
                 # in case of Kakan, create new post turn to train on chankan ron decision
                 if naki.is_kakan():
-                    # remove corresponding pon from melds
-                    for i, meld in enumerate(melds[player]):
-                        if meld.is_pon():
-                            color, number, *_ = meld.pattern_pon()
-                            if color * 9 + number == exposed[0] // 4:
-                                melds[player].pop(i)
-                                break
-
                     new_post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
                     # evaluate chankan ron
diff --git a/MahjongAI/state.py b/MahjongAI/state.py
index bd095df..2cd5a49 100644
--- a/MahjongAI/state.py
+++ b/MahjongAI/state.py
@@ -28,15 +28,16 @@ class StateObject:
         player: int
     ):
         self.remaining_turns = remaining_turns
-        self.hand_tensor = hand_tensor
-        self.remaining_tiles = remaining_tiles
-        self.remaining_tiles_pov = remaining_tiles_pov
-        self.sutehai_tensors = sutehai_tensors
-        self.is_menzen = is_menzen
+        # the caller keeps updating its arrays and lists in place, so keep copies
+        self.hand_tensor = np.copy(hand_tensor)
+        self.remaining_tiles = np.copy(remaining_tiles)
+        self.remaining_tiles_pov = np.copy(remaining_tiles_pov)
+        self.sutehai_tensors = np.copy(sutehai_tensors)
+        self.is_menzen = list(is_menzen)
         self.double_reaches = double_reaches
         self.reaches = reaches
         self.ippatsu = ippatsu
-        self.melds = melds
+        self.melds = [list(player_melds) for player_melds in melds]
         self.scores = scores
         self.kyotaku = kyotaku
         self.honba = honba
-- 
2.43.0


From 33e0c1c790144ff655369a04e863e5124565cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 02/28] fix: count each kan once in the number of draws left

A kan shortens the live wall by the one replacement draw, which is counted
when it is drawn; the kan itself and its dora indicator were counted too.
---
 MahjongAI/process_xml.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 7aba414..1c410e5 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -129,7 +129,6 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                remaining_tsumo -= 1
                 encoding_tokens.append(new_dora2idx(tile_idx))
 
             elif eventtype == "REACH":
@@ -199,9 +198,6 @@ def process(file_path: str, verbose: bool = False):
                                 decision.executed = True
                                 break
 
-                if not naki.is_chi() and not naki.is_pon():
-                    remaining_tsumo -= 1
-
                 exposed, acquired = naki.get_exposed()
                 exposed_idx = TILE2IDX[exposed]
 
-- 
2.43.0


From 4ab5f3dd692fcce5980c9f3cd1d8c98ba8b97fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 03/28] fix: keep ippatsu alive until the player's next discard
 or a call

It started with the declaration instead of the accepted riichi, and any
draw of any player ended it, even before the winning draw was evaluated.
---
 MahjongAI/process_xml.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 1c410e5..392d3b6 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -156,8 +156,8 @@ def process(file_path: str, verbose: bool = False):
                         double_reaches[player] = 1
                     encoding_tokens.append(reach2idx(player))
 
-                ippatsu = ippatsu[:]
-                ippatsu[player] = 1
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 1
 
             elif eventtype == "N":
                 assert curr_halfturn is not None
@@ -319,10 +319,6 @@ def process(file_path: str, verbose: bool = False):
                 hand_tensors_full[player][tile_idx] += 1.0
                 assert int(hand_tensors[player][:34].sum()) % 3 == 2
 
-                if ippatsu[player]:
-                    ippatsu = ippatsu[:]
-                    ippatsu[player] = 0
-
                 # check if tsumo is possible
                 agari_decisions = evaluate_tsumo(
                     player=player,
@@ -412,8 +408,6 @@ def process(file_path: str, verbose: bool = False):
 
                 halfturns.append(halfturn)
                 curr_halfturn = halfturn  # carry over
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
 
             elif eventtype[0] in ["D", "E", "F", "G"]:
                 assert acquired is not None
@@ -437,6 +431,11 @@ def process(file_path: str, verbose: bool = False):
                 )
                 halfturns.append(half_turn)
 
+                # the one-shot chance ends with the player's next discard
+                if ippatsu[player]:
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 0
+
                 hands[player, tile] = 0.0
                 hand_tensors[player][tile_idx] -= 1.0
                 hand_tensors_full[player][tile_idx] -= 1.0
-- 
2.43.0


From 4fae279fadb9c570fedb3ce60e58e609ba33ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 04/28] fix: let every call end the first go-around

A call, a concealed kan included, cancels double riichi and the blessing
hands; the count mixed absolute and relative seats and missed most.
---
 MahjongAI/process_xml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 392d3b6..f0af70e 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -165,8 +165,7 @@ def process(file_path: str, verbose: bool = False):
 
                 naki = Naki(int(event["attr"]["m"]))
                 player = int(event["attr"]["who"])
-                from_who = naki.from_who()
-                cycles += (player - from_who) % 4
+                cycles += 4  # a call ends the uninterrupted first go-around
                 melds[player] = melds[player][:] + [naki]
 
                 encoding_tokens.append(naki2idx(player, naki))
-- 
2.43.0


From 18f90897643f8f5fca44ea0be2a7a5db0d0b6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 05/28] fix: take a revealed red five out of the unseen tiles

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index f0af70e..ddbb416 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -124,12 +124,12 @@ def process(file_path: str, verbose: bool = False):
 
             if eventtype == "DORA":
                 tile = int(event["attr"]["hai"])
-                tile_idx = TILE2IDX[tile][0]
+                tile_idx = TILE2IDX[tile]
                 doras = doras[:] + [tile]
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                encoding_tokens.append(new_dora2idx(tile_idx))
+                encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
                 assert curr_halfturn is not None
-- 
2.43.0


From 481e980700dbee88718ea65fc96f54443df19136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 06/28] fix: offer the added kan for the tile that is really in
 hand

The offer looked up a tile kind in the array of tile ids, always assumed a
pon without the red five, and could not be matched with the kan declared.
---
 MahjongAI/draw.py        | 6 ++++--
 MahjongAI/process_xml.py | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index f90474f..2ef4d1f 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -94,8 +94,10 @@ class Naki(Draw):
         return code
 
     def _clean_kakan(self):
-        _, _, which, red, *_ = self.pattern_kakan()
-        code = self.naki_code & ~(0x60)
+        color, number, _, red, exposed, _ = self.pattern_kakan()
+        # keep only the tile and, for fives, whether the red one was in the pon
+        which = int(red and exposed[0] % 4 != 0)
+        code = 0x10 | (((color * 9 + number) * 3 + which) << 9)
         if not red or which:
             code |= 0x20
         return code
diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index ddbb416..56c8b4a 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -358,14 +358,14 @@ def process(file_path: str, verbose: bool = False):
                 # check if kakan is possible
                 for meld in melds[player]:
                     if meld.is_pon():
-                        color, number, *_ = meld.pattern_pon()
-                        if hands[player, 9 * color + number] == 1.0:
+                        color, number, _, has_red, *_ = meld.pattern_pon()
+                        if hand_tensors[player][9 * color + number] > 0.0:
                             naki_decisions.append(
                                 NakiDecision(
                                     player,
                                     Naki.from_kakan_info(
-                                        9 * color + number, 0
-                                    ),  # TODO get accurate "which" value
+                                        9 * color + number, int(has_red)
+                                    ),
                                     executed=False,
                                 )
                             )
-- 
2.43.0


From 40e44ae7088d629341c469991d7764e358eef756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 07/28] fix: offer every possible chi, pon and open kan, in
 comparable form

A pair was required to call pon, so three in hand offered only the kan;
fives were counted on the discarded kind; and several red-five calls and
all open kans were encoded so that they never equalled the call made.
---
 MahjongAI/decision.py | 43 +++++++++++++++++++------------------------
 MahjongAI/draw.py     |  2 ++
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 4dd7032..4ef73c4 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -83,12 +83,12 @@ def _one_and_nine_mask(
             )
             assert naki.is_chi()
             decisions[p].append(NakiDecision(p, naki, False))
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -117,13 +117,13 @@ def _two_and_eight_mask(
                 assert naki.is_chi()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -144,7 +144,7 @@ def _three_and_seven_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx // 9 * 9 + 4] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -179,13 +179,13 @@ def _three_and_seven_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -206,7 +206,7 @@ def _four_and_six_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx // 9 * 9 + 4] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -218,16 +218,13 @@ def _four_and_six_mask(
             if hand_tensor[tile_idx - 1] * hand_tensor[tile_idx + 1]:
                 if player_has_red:
                     naki = Naki.from_chi_info(
-                        tile_idx // 9, 2 if is_four else 4, 0 if is_four else 2, True
+                        tile_idx // 9, 2 if is_four else 4, 1, True
                     )
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
                     if black_fives > 0:
                         naki = Naki.from_chi_info(
-                            tile_idx // 9,
-                            2 if is_four else 4,
-                            0 if is_four else 2,
-                            False,
+                            tile_idx // 9, 2 if is_four else 4, 1, False
                         )
                         assert naki.is_chi()
                         decisions[p].append(NakiDecision(p, naki, False))
@@ -257,13 +254,13 @@ def _four_and_six_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -300,24 +297,22 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if player_has_red:
-            if hand_tensor[tile_idx] == 2.0:
+            if hand_tensor[tile_idx] >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 1, True, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
-            if black_fives == 2.0:
+            if black_fives >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
         else:
-            if hand_tensor[tile_idx] == 2.0:
-                naki = Naki.from_pon_info(
-                    tile_idx, 1 if is_red else 0, is_red, (player - p) % 4
-                )
+            if hand_tensor[tile_idx] >= 2.0:
+                naki = Naki.from_pon_info(tile_idx, 0, is_red, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1 if is_red else 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0 if is_red else 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -331,12 +326,12 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
         if p == player:
             continue
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index 2ef4d1f..f922938 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -91,6 +91,8 @@ class Naki(Draw):
             code += 0x60
             if which:
                 code -= (which - 1) << 9
+        else:
+            code -= which << 9
         return code
 
     def _clean_kakan(self):
-- 
2.43.0


From 60dbb1baaf239978d7f27064bf6672c6ab6d9469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 08/28] fix: offer no calls to a player in riichi nor on the
 last tile

---
 MahjongAI/process_xml.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 56c8b4a..2ee5d96 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -351,6 +351,8 @@ def process(file_path: str, verbose: bool = False):
                 naki_decisions = []
                 # check if ankan is possible
                 for i in np.where(hand_tensors[player] == 4.0)[0]:
+                    if remaining_tsumo == 0:
+                        break
                     naki_decisions.append(
                         NakiDecision(player, Naki.from_ankan_info(i), executed=False)
                     )
@@ -359,7 +361,10 @@ def process(file_path: str, verbose: bool = False):
                 for meld in melds[player]:
                     if meld.is_pon():
                         color, number, _, has_red, *_ = meld.pattern_pon()
-                        if hand_tensors[player][9 * color + number] > 0.0:
+                        if (
+                            remaining_tsumo > 0
+                            and hand_tensors[player][9 * color + number] > 0.0
+                        ):
                             naki_decisions.append(
                                 NakiDecision(
                                     player,
@@ -484,6 +489,9 @@ def process(file_path: str, verbose: bool = False):
                     if p == player:
                         assert len(decision_lst) == 0
                         continue
+                    # no calls in riichi or on the last discard
+                    if reaches[p] or remaining_tsumo == 0:
+                        continue
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
                 half_turn = PostTurn(
-- 
2.43.0


From 2608af7d4cec915357bfa861d18eb72bf6fae8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 09/28] fix: give every call its own action index

Calls using a red five from hand shared indices with each other, with other
suits and with pons, and a red-five pon got the plain pon's index.
---
 MahjongAI/draw.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index f922938..1815fd2 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -249,7 +249,11 @@ class Naki(Draw):
             color, number, which, has_red, _, _ = self.pattern_chi()
             if has_red and number + which != 4:
                 return (
-                    CHI_START + 63 + 6 * color + number * 2 + (number + which - 3) // 2
+                    CHI_START
+                    + 63
+                    + 6 * color
+                    + (number - 2) * 2
+                    + (which - int(which > 4 - number))
                 )
             else:
                 return CHI_START + color * 21 + number * 3 + which
@@ -258,7 +262,7 @@ class Naki(Draw):
             color, number, which, has_red, _, acquired = self.pattern_pon()
             if color == 3:
                 return PON_START + 30 + number
-            elif has_red and acquired % 4 == 3:
+            elif has_red and acquired % 4 != 0:
                 return PON_START + 27 + color
             else:
                 return PON_START + 9 * color + number
-- 
2.43.0


From e2959de76603e79ad53a9196c254d67440405e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 10/28] fix: tag discard tokens as discards, not as calls

---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 2ee5d96..094b3dc 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -598,7 +598,7 @@ def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
         EventStateTypes.DISCARD << 13
-        | EventTypes.NAKI << 10
+        | EventTypes.DISCARD << 10
         | who << 8
         | int(is_tsumogiri) << 7
         | tile_idx
-- 
2.43.0


From 40b1091d53ec3e2c8a5b83a38927f94fc3bb5933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 11/28] fix: include the discard in the history its responders
 see

---
 MahjongAI/process_xml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 094b3dc..4b4113e 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -452,6 +452,11 @@ def process(file_path: str, verbose: bool = False):
                     pov[tile_idx] -= 1.0
                 remaining_tiles_pov[player][tile_idx] += 1.0
 
+                # the other players respond to this discard, so it is in their history
+                encoding_tokens.append(
+                    discard2idx(player, tile_idx[0], tile == acquired)
+                )
+
                 # post_decisions will contain three lists of different decisions: ron, pon/kan, chi
                 post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
@@ -503,9 +508,6 @@ def process(file_path: str, verbose: bool = False):
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
 
-                encoding_tokens.append(
-                    discard2idx(player, tile_idx[0], tile == acquired)
-                )
                 acquired = None
 
             elif eventtype == "AGARI" or eventtype == "RYUUKYOKU":
-- 
2.43.0


From 8a615e02f6dc248f3228a430c5c715b38bffb2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 12/28] fix: evaluate wins with a winning tile that is part of
 the hand

The hand is rebuilt from tile kinds, but the winning tile kept its own id,
and the valuation rejects a winning tile it does not find in the hand. A
rebuilt hand with four fives even spilled into the sixes.
---
 MahjongAI/utils/agari.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 7e2b2d7..c8f9194 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -74,7 +74,7 @@ def evaluate_ron(
         hand_tensor[discarded_tile_idx] -= 1
 
         tiles = TilesConverter.string_to_136_array(
-            man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
+            man=man, pin=pin, sou=sou, honors=honors
         )
 
         melds = []
@@ -138,7 +138,7 @@ def evaluate_ron(
         # TODO: use Agari.is_agari instead for better performance
         result: HandResponse = hand_calculator.estimate_hand_value(
             tiles=tiles,
-            win_tile=discarded_tile,
+            win_tile=discarded_tile_idx * 4,
             melds=melds,
             dora_indicators=doras,
             config=config,
@@ -178,7 +178,7 @@ def evaluate_tsumo(
     man, pin, sou, honors = hand_tensor2strs(hand_tensor)
 
     tiles = TilesConverter.string_to_136_array(
-        man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
+        man=man, pin=pin, sou=sou, honors=honors
     )
     nakis = naki_list[player]
 
@@ -244,7 +244,7 @@ def evaluate_tsumo(
 
     result: HandResponse = hand_calculator.estimate_hand_value(
         tiles=tiles,
-        win_tile=tsumo_tile,
+        win_tile=TILE2IDX[tsumo_tile][0] * 4,
         melds=melds,
         dora_indicators=doras,
         config=config,
-- 
2.43.0


From 9e09d59937e9a108adc0bf3b787b070b1ae704c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 13/28] fix: give every player their own seat wind when
 evaluating wins

The winds were passed as 0-3 instead of the wind tiles, and every player
got the dealer's seat.
---
 MahjongAI/utils/agari.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index c8f9194..a71ea70 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -3,6 +3,7 @@ import sys
 
 sys.path.append("../../")
 
+from mahjong.constants import EAST
 from mahjong.tile import TilesConverter
 from mahjong.hand_calculating.hand import HandCalculator
 from mahjong.hand_calculating.hand_response import HandResponse
@@ -128,8 +129,8 @@ def evaluate_ron(
             is_houtei=False,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
-            player_wind=player_wind,
-            round_wind=round_wind,
+            player_wind=EAST + (p - player_wind) % 4,  # player_wind: seat of the dealer
+            round_wind=EAST + round_wind,
             kyoutaku_number=kyotaku,
             tsumi_number=honba,
             options=OPTIONS,
@@ -235,8 +236,8 @@ def evaluate_tsumo(
         is_tenhou=is_tenhou,
         is_chiihou=is_chiihou,
         is_renhou=False,
-        player_wind=player_wind,
-        round_wind=round_wind,
+        player_wind=EAST + (player - player_wind) % 4,  # player_wind: seat of the dealer
+        round_wind=EAST + round_wind,
         kyoutaku_number=kyotaku,
         tsumi_number=honba,
         options=OPTIONS,
-- 
2.43.0


From d2096ab5fadaf2a5709497b728407fadf96b1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 14/28] fix: recognise wins on the last discard and on a
 replacement draw

The last-discard win was evaluated as a last-draw win, which a ron can never
be; the replacement-draw win was never evaluated; and a first-go-around ron,
no yaku in these rules, was granted to the wrong players.
---
 MahjongAI/process_xml.py | 13 +++++++------
 MahjongAI/utils/agari.py |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 4b4113e..8630222 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -108,6 +108,7 @@ def process(file_path: str, verbose: bool = False):
         cycles = 0
         acquired = None
         result_idx = None
+        is_rinshan = False
 
         if verbose:
             print(f"Scores: {scores}")
@@ -299,6 +300,7 @@ def process(file_path: str, verbose: bool = False):
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     cycles += 1
                     acquired = None
+                    is_rinshan = True  # the next draw replaces the kan
 
             elif eventtype[0] in ["T", "U", "V", "W"]:
                 assert acquired is None
@@ -327,8 +329,8 @@ def process(file_path: str, verbose: bool = False):
                     doras=doras,
                     reaches=reaches,
                     ippatsu=ippatsu,
-                    is_haitei=(remaining_tsumo == 0),
-                    is_rinshan=False,
+                    is_haitei=(remaining_tsumo == 0 and not is_rinshan),
+                    is_rinshan=is_rinshan,
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
                     is_chiihou=(2 <= cycles <= 4 and min(is_menzen)),
@@ -338,6 +340,8 @@ def process(file_path: str, verbose: bool = False):
                     honba=honba,
                 )
 
+                is_rinshan = False
+
                 # check if reach is possible
                 reach_decisions = []
                 if not reaches[player] and is_menzen[player]:
@@ -472,10 +476,7 @@ def process(file_path: str, verbose: bool = False):
                     is_chankan=False,
                     is_haitei=(remaining_tsumo == 0),
                     double_reaches=double_reaches,
-                    is_renhou=[
-                        (cycles <= 3 and player >= cycles and min(is_menzen))
-                        for _ in range(4)
-                    ],
+                    is_renhou=[False] * 4,  # not a yaku in these rules
                     player_wind=roundinfo.player_wind,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index a71ea70..0222ae0 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -125,8 +125,8 @@ def evaluate_ron(
             is_ippatsu=ippatsu[p],
             is_rinshan=False,
             is_chankan=is_chankan,
-            is_haitei=is_haitei,
-            is_houtei=False,
+            is_haitei=False,
+            is_houtei=is_haitei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
             player_wind=EAST + (p - player_wind) % 4,  # player_wind: seat of the dealer
-- 
2.43.0


From f5ca9303afc9eb3aa88358b70ee165384d64b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 15/28] fix: mark the win that was taken as executed

Every win was recorded as passed up, so the models learned never to win.
---
 MahjongAI/process_xml.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 8630222..18f6dcf 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -528,7 +528,16 @@ def process(file_path: str, verbose: bool = False):
                 result.append(
                     AgariResult(list(map(int, event["attr"]["sc"].split(","))))
                 )
-                # TODO: make decision executed = True
+                winner = int(event["attr"]["who"])
+                last_turn = halfturns[-1]
+                if isinstance(last_turn, PostTurn):
+                    agari_decisions = last_turn.decisions[winner][DECISION_AGARI_IDX]
+                elif last_turn.player == winner:
+                    agari_decisions = last_turn.decisions[DECISION_AGARI_IDX]
+                else:  # robbing a concealed kan is not offered (see above)
+                    agari_decisions = []
+                for decision in agari_decisions:
+                    decision.executed = True
 
             elif event["event"] == "RYUUKYOKU":
                 result.append(
-- 
2.43.0


From 33af85f39a71229db40ef8d74bdf3653fea4c98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 16/28] fix: label draw-turn examples with the action taken

The loop variable over the decision kinds doubled as the label, so passes
were labelled as an added kan index or as riichi, often outside the mask.
---
 MahjongAI/agents/transformer.py              | 10 +++++-----
 MahjongAI/agents/transformer_conv.py         | 10 +++++-----
 MahjongAI/agents/transformer_conv_large.py   | 10 +++++-----
 MahjongAI/agents/transformer_conv_ordered.py | 10 +++++-----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index a677569..a69e752 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -819,7 +819,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -830,12 +830,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -844,12 +844,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 04d844f..91cee50 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 75bbec1..966ce55 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 1c146c8..dc50b86 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -909,7 +909,7 @@ class TransformerTensorProcessor:
             )
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -920,12 +920,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -939,12 +939,12 @@ class TransformerTensorProcessor:
                         ), f"Filter idx {idx} out of range for DURING_TURN_ACTION_DIM"
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
             player_tensor.append(turn.player)
 
-- 
2.43.0


From be9eccebf7d66dbfded93f315ed4960f35d3342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 17/28] fix: show each responder their own view of the table

Calls and wins on a discard were learned from the discarder's concealed
hand and view instead of the hand of the player who decides.
---
 MahjongAI/agents/transformer.py              |  8 +++--
 MahjongAI/agents/transformer_conv.py         |  8 +++--
 MahjongAI/agents/transformer_conv_large.py   |  8 +++--
 MahjongAI/agents/transformer_conv_ordered.py |  8 +++--
 MahjongAI/process_xml.py                     | 33 ++++++++++++++++++++
 MahjongAI/turn.py                            |  3 ++
 6 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index a69e752..02e8705 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -944,15 +944,17 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
                 if sum(map(len, decisions[player_idx])) == 0:
                     continue
 
+                # Create state object tensor, as seen by the deciding player
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.responderStateObjs[player_idx]
+                )
+
                 contains_executed = False
                 result = 0
                 decision_mask = torch.zeros(154, dtype=torch.float32, device=device)
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 91cee50..1de00fd 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -923,15 +923,17 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
                 if sum(map(len, decisions[player_idx])) == 0:
                     continue
 
+                # Create state object tensor, as seen by the deciding player
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.responderStateObjs[player_idx]
+                )
+
                 contains_executed = False
                 result = 0
                 decision_mask = torch.zeros(154, dtype=torch.float32, device=device)
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 966ce55..f47ad8d 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -923,15 +923,17 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
                 if sum(map(len, decisions[player_idx])) == 0:
                     continue
 
+                # Create state object tensor, as seen by the deciding player
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.responderStateObjs[player_idx]
+                )
+
                 contains_executed = False
                 result = 0
                 decision_mask = torch.zeros(154, dtype=torch.float32, device=device)
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index dc50b86..bf4d836 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -1048,9 +1048,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # Iterate through players in order
             action_player = turn.player
             ordered_players = players[action_player + 1 :] + players[:action_player]
@@ -1058,6 +1055,11 @@ class TransformerTensorProcessor:
                 if sum(map(len, decisions[player_idx])) == 0:
                     continue
 
+                # Create state object tensor, as seen by the deciding player
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.responderStateObjs[player_idx]
+                )
+
                 contains_executed = False
                 result = 0
                 decision_mask = torch.zeros(
diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 18f6dcf..e732331 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -110,6 +110,37 @@ def process(file_path: str, verbose: bool = False):
         result_idx = None
         is_rinshan = False
 
+        def responder_states(post_decisions):
+            # the table as seen now by every player who has a decision to make
+            return [
+                (
+                    StateObject(
+                        remaining_turns=remaining_tsumo,
+                        hand_tensor=hand_tensors[p],
+                        remaining_tiles=remaining_tiles,
+                        remaining_tiles_pov=remaining_tiles_pov[p],
+                        sutehai_tensors=sutehai_tensors,
+                        is_menzen=is_menzen,
+                        double_reaches=double_reaches,
+                        reaches=reaches,
+                        ippatsu=ippatsu,
+                        melds=melds,
+                        scores=scores,
+                        kyotaku=kyotaku,
+                        honba=honba,
+                        dora=doras,
+                        parent_tensor=parent_tensor,
+                        rounds_remaining=rounds_remaining,
+                        parent_rounds_remaining=parent_rounds_remaining,
+                        remaining_tsumo=remaining_tsumo,
+                        player=p,
+                    )
+                    if any(post_decisions[p])
+                    else None
+                )
+                for p in range(4)
+            ]
+
         if verbose:
             print(f"Scores: {scores}")
             print(f"Parent: {parent}")
@@ -287,6 +318,7 @@ def process(file_path: str, verbose: bool = False):
                         stateObj=stateObj,
                         decisions=new_post_decisions,
                         encoding_idx=len(encoding_tokens),
+                        responderStateObjs=responder_states(new_post_decisions),
                     )
 
                     halfturns.append(curr_halfturn)
@@ -505,6 +537,7 @@ def process(file_path: str, verbose: bool = False):
                     stateObj=stateObj,
                     decisions=post_decisions,
                     encoding_idx=len(encoding_tokens),
+                    responderStateObjs=responder_states(post_decisions),
                 )
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
diff --git a/MahjongAI/turn.py b/MahjongAI/turn.py
index 6b10a21..f85b204 100644
--- a/MahjongAI/turn.py
+++ b/MahjongAI/turn.py
@@ -64,9 +64,12 @@ class PostTurn(HalfTurn):
         stateObj: StateObject,
         decisions: List[List[List[Decision]]],
         encoding_idx: int,
+        responderStateObjs: List[StateObject],
     ):
         super().__init__(player, HalfTurn.POST, stateObj, encoding_idx)
         self.decisions = decisions
+        # what each player with a decision sees; None for the others
+        self.responderStateObjs = responderStateObjs
 
     def __repr__(self):
         return "PostTurn Object | Player: {} | Decisions: {}".format(
-- 
2.43.0


From b1e51f4a6945be0926b45ab8a6fdfef53c03c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 18/28] fix: never leave a torn checkpoint under its final name

The next start resumes from the newest checkpoint name and failed on one
that a crash, a kill or a full disk had cut short.
---
 MahjongAI/supervised_learning.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index beb9ae8..16a33a2 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -179,7 +179,13 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
             model_path = os.path.join(
                 checkpoint_dir, f"model_{model_name}_checkpoint_iter_{iter}.pt"
             )
-            torch.save(model.state_dict(), model_path)
+            # write aside and rename, so that a crash cannot leave a torn checkpoint
+            tmp_path = model_path + ".tmp"
+            with open(tmp_path, "wb") as f:
+                torch.save(model.state_dict(), f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp_path, model_path)
             log_message(f"Model saved at {model_path}")
 
         train_dataloader.reset()
-- 
2.43.0


From 89ab9475a948c5500be86b52bca212cb789100e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 19/28] fix: keep the log of a run started in the same second

---
 MahjongAI/supervised_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index 16a33a2..ff05579 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -21,7 +21,7 @@ device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
 
 # Create log file
 log_file = f"training_log_{datetime.now().strftime('%Y%m%d_%H%M%S')}.txt"
-with open(log_file, "w") as f:
+with open(log_file, "a") as f:
     f.write("Training log started\n")
 
 
-- 
2.43.0


From be8c6b99da837a2c0326afe9d39b7e6a0ff7f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 20/28] fix: let a bad game log cost only itself

A log that broke a table invariant ended the whole training run, and a pass
ending in unusable files delivered an empty batch, which crashed it too.
---
 MahjongAI/utils/dataloader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index e330fdd..c457e44 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -1,5 +1,4 @@
 import os
-import sys
 import torch
 
 from MahjongAI.process_xml import process, InvalidGameException
@@ -37,17 +36,20 @@ class DataLoader:
             except InvalidGameException as e:
                 # print(f"Invalid game detected: {e.msg}")
                 continue  # Skip to the next file
-            except AssertionError as e:
-                print(f"Assertion error: {e} happened in {filename}")
-                sys.exit(1) # TODO: remove this line
             except Exception as e:
                 print(f"Unexpected error: {e} happened in {filename}")
                 continue
 
+            if not all_halfturns:
+                continue  # no round was played
+
             # return all_halfturns, all_encoding_tokens
             all_halfturns_list.append(all_halfturns)
             all_encoding_tokens_list.append(all_encoding_tokens)
 
+        if not all_halfturns_list:
+            raise StopIteration  # none of the remaining files was usable
+
         self.log_func(f"{self.__repr__()} - Batch {self.batch_count}")
 
         return all_halfturns_list, all_encoding_tokens_list
-- 
2.43.0


From f692348e88ae4684169f8475e5533f0b0e1c44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 21/28] fix: survive a validation set without usable games

---
 MahjongAI/supervised_learning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index ff05579..da41017 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -210,6 +210,8 @@ def estimate_loss(val_dataloader: DataLoader, model, batch_size: int):
     val_dataloader.reset()
 
     model.train()  # Return model to training mode
+    if num_batches == 0:
+        return float("nan")  # nothing to validate on
     return total_loss / num_batches  # Average validation loss
 
 
-- 
2.43.0


From 88f7d60e3f7aae63af10db360e1813f353b91477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 22/28] fix: redo an interrupted extraction

gunzip does not overwrite the torn page left by a killed run without -f.
---
 MahjongAI/data/filter_raw.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/data/filter_raw.sh b/MahjongAI/data/filter_raw.sh
index cf22aac..8255c76 100644
--- a/MahjongAI/data/filter_raw.sh
+++ b/MahjongAI/data/filter_raw.sh
@@ -12,7 +12,7 @@ done
 
 # Unzip .gz files in the directory
 for file in $directory*.gz; do
-    gunzip "$file"
+    gunzip -f "$file"
     unzipped_file="${file%.gz}"
     echo "Unzipped file: $unzipped_file"
 done
-- 
2.43.0


From 04adc316fdd07f712b51f72a27053a28965ab9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 23/28] fix: store only whole downloads and go on after a
 failed one

One network or disk error ended the whole scrape, and a crash or full disk
left a torn game log under its final name.
---
 MahjongAI/data/scrape_data.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/data/scrape_data.py b/MahjongAI/data/scrape_data.py
index 731c60e..8f2b0ea 100644
--- a/MahjongAI/data/scrape_data.py
+++ b/MahjongAI/data/scrape_data.py
@@ -27,11 +27,17 @@ for filename in os.listdir(dir_name):
                 headers = {
                     "User-Agent": "Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) "
                 }
-                response = requests.get(modified_url, headers=headers)
-                if response.status_code == 200:
-                    # Save the response content to a file
-                    data_filename = os.path.join(output_dir_name, gid + ".log")
-                    with open(data_filename, "wb") as data_file:
-                        data_file.write(response.content)
-                else:
-                    print(f"Failed to download data from: {modified_url}")
+                data_filename = os.path.join(output_dir_name, gid + ".log")
+                try:
+                    response = requests.get(modified_url, headers=headers, timeout=60)
+                    if response.status_code == 200:
+                        # Save the response content to a file, all of it or nothing
+                        with open(data_filename + ".part", "wb") as data_file:
+                            data_file.write(response.content)
+                            data_file.flush()
+                            os.fsync(data_file.fileno())
+                        os.replace(data_filename + ".part", data_filename)
+                    else:
+                        print(f"Failed to download data from: {modified_url}")
+                except OSError as e:  # covers the network errors of requests too
+                    print(f"Failed to download data from: {modified_url} ({e})")
-- 
2.43.0


From e2f6471c07884dd37cebbefb837beae7c5c9a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 24/28] fix: make a reported checkpoint survive a power loss

---
 MahjongAI/supervised_learning.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index da41017..fc71ec2 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -186,6 +186,11 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
                 f.flush()
                 os.fsync(f.fileno())
             os.replace(tmp_path, model_path)
+            dir_fd = os.open(checkpoint_dir, os.O_RDONLY)
+            try:
+                os.fsync(dir_fd)  # make the new name survive a power loss
+            finally:
+                os.close(dir_fd)
             log_message(f"Model saved at {model_path}")
 
         train_dataloader.reset()
-- 
2.43.0


From 5db63f067de39bbec0e9964314b98e8bfcad0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 25/28] fix: take only real checkpoint names for checkpoints

---
 MahjongAI/supervised_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index fc71ec2..1bfb021 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -40,7 +40,7 @@ def find_latest_checkpoint(model_name: str, checkpoint_dir: str) -> Tuple[int, s
     regex = rf"model_{re.escape(model_name)}_checkpoint_iter_(\d+)\.pt"
 
     for file in checkpoint_files:
-        match = re.search(regex, file)
+        match = re.fullmatch(regex, os.path.basename(file))
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
-- 
2.43.0


From 95fc8446129074a953c962b53f70b8b5a0b8d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 26/28] fix: do not start over when the checkpoint directory
 cannot be read

---
 MahjongAI/supervised_learning.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index 1bfb021..aeccf52 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -2,7 +2,6 @@ import torch
 import os
 import sys
 import re
-import glob
 import math
 from datetime import datetime
 from typing import Tuple
@@ -31,8 +30,10 @@ def find_latest_checkpoint(model_name: str, checkpoint_dir: str) -> Tuple[int, s
     Returns a tuple of (latest_iter, checkpoint_path).
     If no checkpoint is found, returns (0, None).
     """
-    pattern = os.path.join(checkpoint_dir, f"model_{model_name}_checkpoint_iter_*.pt")
-    checkpoint_files = glob.glob(pattern)
+    # not glob, which takes a directory it cannot read for an empty one
+    checkpoint_files = (
+        os.listdir(checkpoint_dir) if os.path.exists(checkpoint_dir) else []
+    )
     max_iter = -1
     latest_checkpoint = None
 
@@ -40,12 +41,12 @@ def find_latest_checkpoint(model_name: str, checkpoint_dir: str) -> Tuple[int, s
     regex = rf"model_{re.escape(model_name)}_checkpoint_iter_(\d+)\.pt"
 
     for file in checkpoint_files:
-        match = re.fullmatch(regex, os.path.basename(file))
+        match = re.fullmatch(regex, file)
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
                 max_iter = iter_num
-                latest_checkpoint = file
+                latest_checkpoint = os.path.join(checkpoint_dir, file)
 
     if latest_checkpoint:
         return max_iter, latest_checkpoint
-- 
2.43.0


From 2bc606f3cc56a0aa3b60518067df1abf3f2711c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 27/28] fix: do not end a pass over a damaged log the console
 cannot print

The loader reports a damaged log with its name and the error, which may quote
the log.  On a console that cannot show these characters print raised, which
ended the pass and the training run.
---
 MahjongAI/utils/dataloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index c457e44..1e84c52 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -37,7 +37,8 @@ class DataLoader:
                 # print(f"Invalid game detected: {e.msg}")
                 continue  # Skip to the next file
             except Exception as e:
-                print(f"Unexpected error: {e} happened in {filename}")
+                # ascii: the log and its name may hold what the console cannot show
+                print(f"Unexpected error: {ascii(str(e))} happened in {ascii(filename)}")
                 continue
 
             if not all_halfturns:
-- 
2.43.0


From d576f42fd4648e5f4defcd1b4e21ac2710186b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 28/28] fix: event masks of three agents were inverted, hiding
 what happened from the networks

---
 MahjongAI/agents/transformer.py            | 18 +++++++++---------
 MahjongAI/agents/transformer_conv.py       | 18 +++++++++---------
 MahjongAI/agents/transformer_conv_large.py | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index 02e8705..b615c70 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 1de00fd..3fb8abd 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index f47ad8d..6f5906f 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
-- 
2.43.0

