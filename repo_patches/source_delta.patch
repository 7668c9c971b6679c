From c4d4e9312c82439248cb373c29592fb686d5ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 01/34] fix: PatternMatchWaiting reports a complete hand as
 complete

waiting_and_useful_tiles kept searching past need_tile_count == 0 because a
complete hand needs no tiles, and reported a positive waiting step.
---
 mahjong/container/pattern/reasoning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index faafa6d..44b85d6 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -84,12 +84,14 @@ class PatternMatchWaiting(Waiting):
         borrow_limit = borrowed_limit(hand)
 
         for need_tile_count in count(0):
+            found_win = False
             useful_tiles = set()
             for pattern, borrowed in self._win_selections_in_tiles(hand, need_tile_count, ignore_4counts,
                                                                    self.win_pattern, borrow_limit,
                                                                    TileDistribution.ALL_TILES.copy()):
+                found_win = True
                 useful_tiles.update(borrowed)
-            if len(useful_tiles) > 0:
+            if found_win:
                 return need_tile_count - 1, useful_tiles
 
     def useful_tiles(self, hand: TileSet, ignore_4counts=True):
-- 
2.43.0


From 770f8d6a1c9b65c6085d665947a284f649b04c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 02/34] fix: analysers honour ignore_4counts=False

BruteForceWaiting never accepted a hand with the flag off and searched for
ever; it and HeuristicPatternMatchWaiting dropped the flag between entry points.
---
 mahjong/container/pattern/reasoning.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index 44b85d6..8fddd63 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -36,14 +36,14 @@ class BruteForceWaiting(Waiting):
         for need_tiles in count(1):
             for tiles in product(TileDistribution.ALL_TILES, repeat=need_tiles):
                 added_hand = hand + TileSet(tiles)
-                if (ignore_4counts and all(v <= 4 for v in added_hand.values())) and self.win_pattern.match(added_hand):
+                if (not ignore_4counts or all(v <= 4 for v in added_hand.values())) and self.win_pattern.match(added_hand):
                     return need_tiles - 1
 
     def useful_tiles(self, hand: TileSet, ignore_4counts=True):
-        self_waiting = self.before_waiting_step(hand)
+        self_waiting = self.before_waiting_step(hand, ignore_4counts)
         return set(tile for tile in TileDistribution.ALL_TILES if
-                   (ignore_4counts and hand[tile] < 4) and
-                   self.before_waiting_step(hand + TileSet([tile])) < self_waiting)
+                   (not ignore_4counts or hand[tile] < 4) and
+                   self.before_waiting_step(hand + TileSet([tile]), ignore_4counts) < self_waiting)
 
 
 def borrowed_limit(hand):
@@ -161,13 +161,13 @@ class HeuristicPatternMatchWaiting(Waiting):
 
     def waiting_and_useful_tiles(self, hand, ignore_4counts=True):
         logging.debug("finding waiting step")
-        self_waiting = self.before_waiting_step(hand)
+        self_waiting = self.before_waiting_step(hand, ignore_4counts)
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, self_waiting)
 
         return self_waiting, set(tile for _, _, borrows in result_iter for tile in borrows)
 
     def batch_waiting_and_useful_tiles(self, hand, ignore_4counts=True):
-        waiting_step = self.before_waiting_step(hand)
+        waiting_step = self.before_waiting_step(hand, ignore_4counts)
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, waiting_step)
         all_hand_cnt = defaultdict(set)
         for _, sub_win, borrows in result_iter:
-- 
2.43.0


From 10d22999e542649cefb0c1519ed784ed18587158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 03/34] fix: tile_to_tenhou_range of a red five gives the fives

The number 0 of a red five was used as is, giving the tiles before the ones of
its suit (negative for 0m), so useful tile counts missed the fives.
---
 mahjong/record/utils/value/tile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/utils/value/tile.py b/mahjong/record/utils/value/tile.py
index d4107c3..3979b18 100644
--- a/mahjong/record/utils/value/tile.py
+++ b/mahjong/record/utils/value/tile.py
@@ -20,6 +20,7 @@ def tile_from_tenhou(index):
 
 def tile_to_tenhou_range(tile: Tile):
     color = SUIT_ORDER.index(tile.color)
-    number = tile.number - 1
+    # a red five (number 0) is one of the four fives.
+    number = (5 if tile.number == 0 else tile.number) - 1
     start_tile, end_tile = (TENHOU_TILE_CATEGORY.index(t) for t in [(color, number, 0), (color, number, 3)])
     return range(start_tile, end_tile + 1)
-- 
2.43.0


From b5c5d1a584a53ff19db38608d4ed051fe9f4198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 04/34] fix: to_unicode_tile shows a red five as a five

The number 0 of a red five gave the character before the suit.
---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 31cbca9..017628f 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -46,7 +46,7 @@ def to_unicode_tile(tile: Tile) -> str:
     if tile.color == 'z':
         number = UNICODE_HONOR_ORDER[tile.number] - 1
     else:
-        number = tile.number - 1
+        number = (5 if tile.number == 0 else tile.number) - 1
     index = TILE_CATEGORY.index((color, number))
     return chr(0x1f000 + index)
 
-- 
2.43.0


From 195216af17728bd26b47bf3eb373324842da3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 05/34] fix: MixedCategory handles parts of different shapes

category() and index() addressed the part next to the one meant and only worked
when all parts had the same shape.
---
 mahjong/record/category.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 27f80c0..61b7e3b 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -60,13 +60,13 @@ class MixedCategory(Category):
         belongs = self.category_list[belongs_id]
         if self._merged_category_classes:
             belongs_class = self._merged_category_classes[belongs_id]
-        sub_id = belongs.category(index - self._accumulate_range[category])
+        sub_id = belongs.category(index - self._accumulate_range[belongs_id])
         concated = (belongs_id,) + sub_id
         return concated if self._merged_category_classes is None else belongs_class(*concated)
 
     def index(self, category_tuple):
         category, *sub_id = category_tuple
-        return self._accumulate_range[category] + self.category_list[category - 1].index(tuple(sub_id))
+        return self._accumulate_range[category] + self.category_list[category].index(tuple(sub_id))
 
 
 class SubCategory(Category):
-- 
2.43.0


From a505d08281124b1c3746d758e4387577feede5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 06/34] fix: a discarded tile 0 is no longer unseen

InvisibleTiles took the discard of tenhou tile 0 (a 1m) for no discard.
---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 7a6a7f2..94f5641 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -188,7 +188,7 @@ class InvisibleTiles(GameState):
             return brand
 
         discard_val = discard_value(event)
-        if discard_val:
+        if discard_val is not None:
             return InvisibleTiles(self._player_num, self._invisible_tiles - {discard_val})
         elif is_open_hand(event):
             return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
-- 
2.43.0


From e68bfb5c20f64dd643513d9214e975eed29eb849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 07/34] fix: unseen tiles of a three-player game include 1m and
 9m

InvisibleTiles put category tuples instead of tile numbers into the set.
---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 94f5641..4998032 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -174,7 +174,7 @@ class InvisibleTiles(GameState):
             if player_num == 4:
                 invisible_tiles = set(range(tile_total))
             elif player_num == 3:
-                color_1m_9m = ((0, num, i) for num, i in product([1 - 1, 9 - 1], range(4)))
+                color_1m_9m = (TENHOU_TILE_CATEGORY.index((0, num, i)) for num, i in product([1 - 1, 9 - 1], range(4)))
                 others = range(TENHOU_TILE_CATEGORY.index((1, 0, 0)), tile_total)
                 invisible_tiles = set(chain(color_1m_9m, others))
         self._invisible_tiles = invisible_tiles
-- 
2.43.0


From 3212a0ec4cf8f81229546c9569dc2f38a7cf93a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 08/34] fix: report lists the reasonings of each hand type

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 017628f..1c7ea7e 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -230,7 +230,7 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     reasoning_names = ["normal_reasonings", "seven_pair_reasonings"]
     if meld_count == 0:
         win_types.append(UniquePairs())
-    win_reasonings = all_win_type_reasoning(hand, invisible_player_perspective, win_types)
+    win_reasonings = list(all_win_type_reasoning(hand, invisible_player_perspective, win_types))
     merged_win_reasonings = [
         reasoning_merge(list(reasoning_same_discard), invisible_player_perspective)
         for reasoning_same_discard in zip(*win_reasonings)
-- 
2.43.0


From 8595db5425eb2ac4ba20ff7aa75a3ac9eb1d4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 09/34] fix: report analyses the discards of a complete hand

---
 mahjong/tenhou_record_check.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 1c7ea7e..2c04508 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -296,10 +296,14 @@ def all_win_type_reasoning(hand, invisible_player_perspective, win_types):
 
 def one_win_reasoning(hand, invisible_player_perspective, win):
     reasoning = HeuristicPatternMatchWaiting(win)
-    # analysed_tiles = set()
+    analysed_tiles = set()
     for tile, step, useful in reasoning.batch_waiting_and_useful_tiles(hand):
-        # analysed_tiles.add(tile)
+        analysed_tiles.add(tile)
         yield convert_to_reasoning(invisible_player_perspective, tile, useful, step)
+    if not analysed_tiles:
+        # nothing brings a complete hand forward, analyse every discard of it.
+        for tile in hand:
+            yield reasoning_discards(hand, invisible_player_perspective, tile, win)
 
     # return (reasoning_discards(hand, invisible_player_perspective, tile, win) for tile in hand)
 
-- 
2.43.0


From ed2bbdea4b488396f5eb3f1ecdf5121c13a67710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 10/34] fix: report merges the reasonings of the same discard

---
 mahjong/tenhou_record_check.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 2c04508..c242fc2 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -233,7 +233,8 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     win_reasonings = list(all_win_type_reasoning(hand, invisible_player_perspective, win_types))
     merged_win_reasonings = [
         reasoning_merge(list(reasoning_same_discard), invisible_player_perspective)
-        for reasoning_same_discard in zip(*win_reasonings)
+        for reasoning_same_discard in reasonings_by_discard(hand, invisible_player_perspective, win_types,
+                                                            win_reasonings)
     ]
     merged_win_reasonings.sort(key=reasoning_key)
     _, expected_reasonings = next(groupby(merged_win_reasonings, key=reasoning_key))
@@ -294,6 +295,15 @@ def all_win_type_reasoning(hand, invisible_player_perspective, win_types):
         yield list(one_win_reasoning(hand, invisible_player_perspective, win))
 
 
+def reasonings_by_discard(hand, invisible_player_perspective, win_types, win_reasonings):
+    analysed = [{item.discard_tile: item for item in win_reasoning} for win_reasoning in win_reasonings]
+    for tile in sorted(set().union(*analysed)):
+        yield [
+            items[tile] if tile in items else reasoning_discards(hand, invisible_player_perspective, tile, win)
+            for win, items in zip(win_types, analysed)
+        ]
+
+
 def one_win_reasoning(hand, invisible_player_perspective, win):
     reasoning = HeuristicPatternMatchWaiting(win)
     analysed_tiles = set()
-- 
2.43.0


From ccd281e3a0561834a3c63121a6006531407f75d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 11/34] fix: report rates a choice when no useful tile is left

---
 mahjong/tenhou_record_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index c242fc2..0358056 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -258,7 +258,8 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     base = expect_counts * shanten_sequence_count
     # print("base=", base, "expect_counts=", expect_counts, "your_counts=", your_counts)
 
-    correct_rate = your_counts / base
+    # no useful tile left anywhere, no choice is worse than another.
+    correct_rate = your_counts / base if base > 0 else 1
     wrong_rate = 1 - correct_rate
     # print("correct=", correct_rate, "wrong=", wrong_rate)
 
-- 
2.43.0


From 5328e33757807d8fd35ecee19a0fcd899e7b6752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 12/34] fix: report shows a red five only once in the hand

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 0358056..33cb5c2 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -269,7 +269,7 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     for item in merged_win_reasonings:
         item.norm()
 
-    hand_str = join_tiles(to_plain_tile(x) for x in hand.tiles())
+    hand_str = join_tiles(to_plain_tile(tile_from_tenhou(index)) for index in sorted(hand_state.value))
     meld_strs = [
         join_tiles(to_plain_tile(tile_from_tenhou(x))
                    for x in list(meld.self_tiles) + list(meld.borrowed_tiles))
-- 
2.43.0


From e4fe503fbb4911f9b0a93118ddf6b1f82636e477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 13/34] fix: faans of a win names only its yaku

---
 mahjong/record/universe/tenhou/event_definition.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/event_definition.py b/mahjong/record/universe/tenhou/event_definition.py
index 8762e8e..1fe0ba3 100644
--- a/mahjong/record/universe/tenhou/event_definition.py
+++ b/mahjong/record/universe/tenhou/event_definition.py
@@ -255,7 +255,12 @@ def agari_command(event: TenhouEvent, ctx):
     with cmd.when(update=Update.REPLACE):
         yield cmd(prop=GameView.nobody_win, value=False)
     attr = event.attrib
-    yaku = list(map(lambda t: SCORE_PATTERN[t], number_list(attr.get("yaku", attr.get("yakuman")))))
+    if "yaku" in attr:
+        # pairs of yaku and its faans.
+        yaku_ids = number_list(attr["yaku"])[::2]
+    else:
+        yaku_ids = number_list(attr["yakuman"])
+    yaku = list(map(lambda t: SCORE_PATTERN[t], yaku_ids))
     yield from game_finish(cmd, ctx, from_player_id, player_id, sc_list, yaku, event)
 
 
-- 
2.43.0


From e390ab51605971be53cb91b3f815f21860e60640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 14/34] fix: win rate demo reports a hand that never won

---
 mahjong/win_rate_demo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/win_rate_demo.py b/mahjong/win_rate_demo.py
index 1f99249..411a1bc 100644
--- a/mahjong/win_rate_demo.py
+++ b/mahjong/win_rate_demo.py
@@ -67,7 +67,7 @@ def main():
     min_rate = 1 / try_count
     condition_matrix = np.full((solution_count, solution_count), min_rate, dtype=np.double)
     for condition_index, condition_tile in enumerate(solution_tiles):
-        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count
+        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count if total_win_count > 0 else 0
         # self_transfer_rate = 0
         for transfer_index, transfer_tile in enumerate(solution_tiles):
             transfer_count = condition_win_counter[condition_tile][transfer_tile]
-- 
2.43.0


From c2a369cc36ff5e6a92528ac7ca4087b3b26466f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 15/34] fix: conversions of records do not share their state

---
 mahjong/record/universe/tenhou/__init__.py | 4 ++--
 mahjong/record/universe/translator.py      | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/tenhou/__init__.py b/mahjong/record/universe/tenhou/__init__.py
index 027a402..cdf3c12 100644
--- a/mahjong/record/universe/tenhou/__init__.py
+++ b/mahjong/record/universe/tenhou/__init__.py
@@ -3,9 +3,9 @@ from mahjong.record.universe.tenhou.xml_macher import tenhou_command
 
 
 def to_command_iter(record, strict):
-    tenhou_command.clear()
+    translator = tenhou_command.fresh()
     for event in record.events:
-        yield from tenhou_command(event, strict)
+        yield from translator(event, strict)
 
 
 def to_command_records(record, raw=False, strict=False):
diff --git a/mahjong/record/universe/translator.py b/mahjong/record/universe/translator.py
index b802e45..207faa5 100644
--- a/mahjong/record/universe/translator.py
+++ b/mahjong/record/universe/translator.py
@@ -1,3 +1,4 @@
+import copy
 from typing import TypeVar, Callable, Iterable, List, Mapping
 
 from loguru import logger
@@ -55,6 +56,12 @@ class CommandTranslator:
     def clear(self):
         self.interpreter.state = {}
 
+    def fresh(self):
+        """The same translating rules, with an empty state of its own."""
+        translator = copy.copy(self)
+        translator.interpreter = GameInterpreter()
+        return translator
+
     def __call__(self, event: EventT, strict=False) -> List[GameCommand]:
         event = self.preprocess(event)
         return_value = self.translate(event)
-- 
2.43.0


From 4a2d882214241e6c33e559a4473a3f8e76691308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 16/34] fix: repr of TenhouEvent

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 1712e41..5d7c0b1 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -100,7 +100,7 @@ class TenhouEvent:
         return getattr(self._wrapped_xml_event, name)
 
     def __repr__(self):
-        return "[%s]:%s" % self, self._wrapped_xml_event
+        return "[%s]:%s" % (self, self._wrapped_xml_event)
 
     @property
     def meta_attribute(self):
-- 
2.43.0


From ec824dabc6b1dd572427e062ba73e2296ea178c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 17/34] fix: match_both registers under the key looked up

---
 mahjong/record/universe/tenhou/xml_macher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/xml_macher.py b/mahjong/record/universe/tenhou/xml_macher.py
index 5d1caf8..f3aed83 100644
--- a/mahjong/record/universe/tenhou/xml_macher.py
+++ b/mahjong/record/universe/tenhou/xml_macher.py
@@ -44,7 +44,7 @@ class TenhouCommandTranslator(CommandTranslator):
 
     def match_both(self, *, name: str, attr: str) -> Callable[[EventTransform], EventTransform]:
         def _matcher_decor(func: EventTransform):
-            self.both_match[(attr, name)].append(func)
+            self.both_match[(name, attr)].append(func)
             return func
 
         return _matcher_decor
-- 
2.43.0


From 4ae32a34f6048b0d2b31eb5948899642adf07b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 18/34] fix: TransferDict can not be cleared in place

---
 mahjong/record/universe/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index ca67f28..90f94a1 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -177,7 +177,7 @@ class TransferDict:
     def _readonly(self, *args, **kwards):
         raise NotImplemented
 
-    __setitem__ = __delattr__ = pop = update = popitem = _readonly
+    __setitem__ = __delattr__ = pop = update = popitem = clear = _readonly
 
     def set(self, key, value):
         modified_dict = {
-- 
2.43.0


From 836c19e6149df78272a9bcb727c0b8d6249d322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 19/34] fix: a missing text property stays missing when written
 and read

---
 mahjong/record/universe/property_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mahjong/record/universe/property_manager.py b/mahjong/record/universe/property_manager.py
index 9ea3c3a..f8b6a64 100644
--- a/mahjong/record/universe/property_manager.py
+++ b/mahjong/record/universe/property_manager.py
@@ -73,6 +73,8 @@ def general_equal(expceted, actual):
 @prop_manager.register(ViewType.str, PropertyMethod.to_str)
 @prop_manager.register(ViewType.str, PropertyMethod.from_str)
 def plain_str(x):
+    if x is None or x != x:
+        return None
     return str(x)
 
 
-- 
2.43.0


From 915affe7681fcba252bc31be76583d8524cfc13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 20/34] fix: reading command csv keeps texts as written

---
 mahjong/record/universe/command.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/command.py b/mahjong/record/universe/command.py
index 4b0c2eb..7801c1d 100644
--- a/mahjong/record/universe/command.py
+++ b/mahjong/record/universe/command.py
@@ -88,7 +88,13 @@ class GameCommand:
 
     @staticmethod
     def read_clean_csv(csv_path):
-        return GameCommand.clean(pandas.read_csv(csv_path))
+        # only an empty field is missing, and texts like "NA" or "1.0" are kept as written.
+        return GameCommand.clean(pandas.read_csv(
+            csv_path,
+            dtype={"value": str, "state": str},
+            keep_default_na=False,
+            na_values=[""],
+        ))
 
     @staticmethod
     def pandas_columns_clean(row_origin):
-- 
2.43.0


From 36a387a374b6b3c13f92b59c69c32647b47a3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 21/34] fix: reading state csv keeps texts as written

---
 mahjong/record/universe/executor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index 90f94a1..e2d0eb5 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -64,14 +64,15 @@ def state_series_apply(x):
             return prop_manager.from_str(t, prop=col_last)
 
         return x.apply(from_str_view)
-    return x
+    return pd.to_numeric(x)
 
 
 
 class GameExecutor:
     @staticmethod
     def read_clean_csv(csv_path):
-        df_states = pd.read_csv(csv_path, header=[0, 1, 2], skipinitialspace=True)
+        # only an empty field is missing, and texts like "NA", " 1" or "1.0" are kept as written.
+        df_states = pd.read_csv(csv_path, header=[0, 1, 2], dtype=str, keep_default_na=False, na_values=[""])
         df_states = df_states.rename(columns=replace_enum_values)
         df_states = df_states.apply(state_series_apply, axis="rows")
         return df_states
-- 
2.43.0


From fed9e0f113d4d6bbe2b84a8579440228ffaaafd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 22/34] fix: report file name is a legal name in the working
 directory

---
 mahjong/tenhou_record_check.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 33cb5c2..44bbb90 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -2,6 +2,7 @@
 import operator as op
 import base64
 import os
+import re
 import sys
 
 import pkg_resources
@@ -193,7 +194,8 @@ def render_template(player, record, template, log_url=None, log_id=None, generat
     render_str = template.render(player=str(player), record=str(record), log_url=log_url, games=games,
                                  all_tiles=all_tiles)
     if generate_filename:
-        return "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index), render_str
+        file_name = "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index)
+        return re.sub(r'[\\/:*?"<>|\x00-\x1f]', "_", file_name), render_str
     else:
         return render_str
 
-- 
2.43.0


From a5f2b46327b2b5b93072e11bba7af345a89908ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 23/34] fix: a stage group left behind takes no item of a later
 group

---
 mahjong/record/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mahjong/record/stage.py b/mahjong/record/stage.py
index 383e69f..946e6b4 100644
--- a/mahjong/record/stage.py
+++ b/mahjong/record/stage.py
@@ -53,6 +53,8 @@ class StageGroupby:
     def _grouper(self, tgtkey: List[K], id):
         while self.id is id and self._stage_accepted(tgtkey):
             yield self.currvalue
+            if self.id is not id:  # left behind, the items belong to a later group.
+                return
             try:
                 self.currvalue = next(self.it)
             except StopIteration:
-- 
2.43.0


From e2ac98d1a5913b6f7fb781e73f33c9b23357f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 24/34] fix: a mixed category with an open-ended last part can
 be built

---
 mahjong/record/category.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 61b7e3b..2141d91 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -34,20 +34,21 @@ class MixedCategory(Category):
     def __init__(self, category_list: Iterable[Category], caption=None, field_name: str = None, merged_sep='__'):
         super().__init__(caption, [field_name] if field_name is not None else None)
         self.category_list = list(category_list)
-        assert all(len(c) < math.inf for c in self.category_list[:-1])
+        # the last part may be open-ended, which len() can not tell.
+        assert all(c.__len__() < math.inf for c in self.category_list[:-1])
         if field_name is not None:
             self._merged_category_classes = [
                 flat_named_tuple_class(self.named_tuple_class, cat.named_tuple_class, sep=merged_sep)
                 for cat in self.category_list]
         else:
             self._merged_category_classes = None
-        self._max = sum(len(c) for c in self.category_list)
+        self._max = sum(c.__len__() for c in self.category_list)
         self._accumulate_range = list(self._accumulate())
 
     def _accumulate(self):
         sum_len = 0
         yield sum_len
-        for length in (len(c) for c in self.category_list):
+        for length in (c.__len__() for c in self.category_list):
             sum_len += length
             yield sum_len
 
-- 
2.43.0


From 5851adc43b3754bc88b3e790bee6d9dcec71e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 25/34] fix: a digit that is no decimal number chooses all
 players

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 44bbb90..53a269d 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -165,7 +165,7 @@ def main():
         n=len(record.players)
     ))
     planned_players = record.players.copy()
-    if input_id.isdigit():
+    if input_id.isdecimal():
         input_id = int(input_id)
         if input_id in range(1, len(record.players) + 1):
             player = record.players[input_id - 1]
-- 
2.43.0


From f9e9eaf2081320d75893a90fcdcee08a4cbd4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 26/34] fix: a hand holding less than half of a form can be
 analysed

---
 mahjong/container/pattern/reasoning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index 8fddd63..9287cec 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -131,7 +131,7 @@ class HeuristicPatternMatchWaiting(Waiting):
         self.borrowed_count = None
 
     def before_waiting_step(self, hand: TileSet, ignore_4counts=True):
-        self.max_used_tiles = sum(hand.values())
+        self.max_used_tiles = self.win_pattern.need_count()
 
         borrows = self.init_search_by_hand(hand)
 
-- 
2.43.0


From 6d8cc705cc05b1bb11cd38ffa94e331ad4dd1731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 27/34] fix: order of tile multisets does not depend on how
 they were filled

---
 mahjong/container/set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/container/set.py b/mahjong/container/set.py
index 400e4f2..59f4442 100644
--- a/mahjong/container/set.py
+++ b/mahjong/container/set.py
@@ -51,7 +51,7 @@ class TileSet(Counter):
         return sum(v for _, v in self.items())
 
     def __lt__(self, other: TileSet):
-        return list(self.items()) < list(other.items())
+        return sorted(self.items()) < sorted(other.items())
 
     def __add__(self, other) -> TileSet:
         # tile_set = TileSet(super().__add__(other))
-- 
2.43.0


From 63b76b26066b0caeb0ee33d24e674fb2be9e082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 28/34] fix: tiles first used in several threads at once are
 complete

---
 mahjong/tile/definition.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mahjong/tile/definition.py b/mahjong/tile/definition.py
index 59b087d..aa9286f 100644
--- a/mahjong/tile/definition.py
+++ b/mahjong/tile/definition.py
@@ -157,3 +157,11 @@ class AkaTile(Tile):
         return TileSet(
             (Tile(self._number + 5, self._color) for _ in range(count))
         )
+
+
+# all tiles are made on import: another thread could be given one that is only half made.
+for _color in 'mpsz':
+    for _number in range(1, 8 if _color in Tile.HONOR else 10):
+        Tile(_number, _color)
+for _color in 'mps':
+    AkaTile(0, _color)
-- 
2.43.0


From ca8a1e808858e9e04c622266c893b64509846dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 29/34] fix: printing, matching or analysing a tile set does
 not re-sort it in place

---
 mahjong/container/pattern/reasoning.py | 1 -
 mahjong/container/pattern/win.py       | 2 ++
 mahjong/container/set.py               | 3 +--
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index 9287cec..636cff7 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -48,7 +48,6 @@ class BruteForceWaiting(Waiting):
 
 def borrowed_limit(hand):
     borrow_limit = hand.copy()
-    hand.re_sort()
     for tile in TileDistribution.ALL_TILES:
         borrow_limit[tile] -= 4
     return borrow_limit
diff --git a/mahjong/container/pattern/win.py b/mahjong/container/pattern/win.py
index 2dd0bda..c77c2b7 100644
--- a/mahjong/container/pattern/win.py
+++ b/mahjong/container/pattern/win.py
@@ -16,6 +16,8 @@ class WinPattern(metaclass=ABCMeta):
         return False
 
     def win_selections(self, hand: TileSet) -> Iterator[List[TileSet]]:
+        # sorted in a copy, the hand may be in use elsewhere.
+        hand = hand.copy()
         hand.re_sort()
         return self._win_selections(hand)
 
diff --git a/mahjong/container/set.py b/mahjong/container/set.py
index 59f4442..9599627 100644
--- a/mahjong/container/set.py
+++ b/mahjong/container/set.py
@@ -25,7 +25,7 @@ class TileSet(Counter):
         return True
 
     def _gen_str_iter(self) -> Iterator[str]:
-        for key, group in groupby(self.items(), key=lambda tup: tup[0].color):
+        for key, group in groupby(sorted(self.items()), key=lambda tup: tup[0].color):
             for tile, num in group:
                 yield str(tile.number) * num
             yield key
@@ -41,7 +41,6 @@ class TileSet(Counter):
             return None
 
     def __str__(self):
-        self.re_sort()
         return ''.join(self._gen_str_iter())
 
     def __repr__(self):
-- 
2.43.0


From 72e65fbbb3d7584bf2f858190a00b549e5331e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 30/34] fix: strict replay stops at a contradiction in
 optimised runs, too

---
 mahjong/record/universe/executor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index e2d0eb5..0f0b7e7 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -127,9 +127,10 @@ class GameExecutor:
                 actual = old_value
                 is_equal = prop_manager.check_equal(expected, actual, prop=view_property)
                 msg = "{} != {} when executing {cmd}".format(expected, actual, cmd=command)
-                if self.strict_mode:
-                    assert is_equal, msg
-                elif not is_equal:
+                if not is_equal:
+                    # not an assert statement, which is left out when running optimised.
+                    if self.strict_mode:
+                        raise AssertionError(msg)
                     logger.warning(msg)
 
         result_state = view.set(
-- 
2.43.0


From 8ff8bfba6eff4f97878f6e9598dcbe0b2e8a0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:04 +0000
Subject: [PATCH 31/34] fix: an analyser can be used by several threads at once

The bound on borrowed tiles of a search was kept on the analyser, so searches
running at the same time on one analyser cut each other short.
---
 mahjong/container/pattern/reasoning.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index 636cff7..7739e2e 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -2,6 +2,7 @@ import logging
 import operator
 from abc import ABCMeta, abstractmethod
 from collections import defaultdict
+from copy import copy
 from functools import reduce
 from itertools import count, product, chain, groupby
 from typing import List
@@ -130,11 +131,13 @@ class HeuristicPatternMatchWaiting(Waiting):
         self.borrowed_count = None
 
     def before_waiting_step(self, hand: TileSet, ignore_4counts=True):
-        self.max_used_tiles = self.win_pattern.need_count()
+        # the bound on borrowed tiles is the search's own, the analyser may be searching in other threads.
+        search = copy(self)
+        search.max_used_tiles = self.win_pattern.need_count()
 
         borrows = self.init_search_by_hand(hand)
 
-        result_iter = self._win_selections_in_tiles(hand, ignore_4counts, self.win_pattern, borrowed_limit(hand),
+        result_iter = search._win_selections_in_tiles(hand, ignore_4counts, self.win_pattern, borrowed_limit(hand),
                                                     borrows, 0, 1)
         return min(v for v, _, _ in result_iter) - 1
 
@@ -179,9 +182,10 @@ class HeuristicPatternMatchWaiting(Waiting):
 
     def count_hand_borrow_combinition_iter(self, hand, ignore_4counts, self_waiting):
         borrows = self.init_search_by_hand(hand)
-        self.max_used_tiles = self_waiting + 1
+        search = copy(self)
+        search.max_used_tiles = self_waiting + 1
         logging.debug("finding useful tiles")
-        result_iter = self._win_selections_in_tiles(hand, ignore_4counts, self.win_pattern, borrowed_limit(hand),
+        result_iter = search._win_selections_in_tiles(hand, ignore_4counts, self.win_pattern, borrowed_limit(hand),
                                                     borrows, 0, 0)
         return result_iter
 
-- 
2.43.0


From 70fe63ebea130ede49fa41060fe6617dd39efc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:09 +0000
Subject: [PATCH 32/34] fix: a win form may have groups of tiles that are not
 neighbours

---
 mahjong/container/pattern/win.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mahjong/container/pattern/win.py b/mahjong/container/pattern/win.py
index c77c2b7..79bbe8c 100644
--- a/mahjong/container/pattern/win.py
+++ b/mahjong/container/pattern/win.py
@@ -32,11 +32,8 @@ class WinPattern(metaclass=ABCMeta):
 
         unit_list = list(self.update_possible_units(hand, possible_units))
 
-        for tile, count in possible_units.items():
-            if count > 0:
-                possible_units[tile] = hand[tile]
-        # possible_units &= hand
-        hand = possible_units
+        # only tiles of some unit are of use, in the order of the hand: a unit is tried when its first tile comes.
+        hand = TileSet({tile: count for tile, count in hand.items() if possible_units[tile] > 0})
 
         if self.need_count() > sum(hand.values()):
             return
-- 
2.43.0


From 22d03a3f6890c1a8ded781f72e91e0b3b926be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:41 +0000
Subject: [PATCH 33/34] fix: a win form may have no units for a tile, in the
 analysers too

---
 mahjong/container/pattern/reasoning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index 7739e2e..3dfaa6c 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -70,7 +70,7 @@ class PatternMatchWaiting(Waiting):
             return
         hand = hand.copy()
         for tile in searching_start.copy():
-            for unit, state in current_state.next_states(tile):
+            for unit, state in current_state.next_states(tile) or ():
                 hand_temp = hand.copy()
                 hand_temp.subtract(unit)
                 yield from (([unit] + tail, remains) for tail, remains in
@@ -143,7 +143,7 @@ class HeuristicPatternMatchWaiting(Waiting):
 
     def init_search_by_hand(self, hand):
         units = [(need_to_borrow(hand, unit), tile, unit) for tile in
-                 TileDistribution.ALL_TILES for unit, _ in self.win_pattern.next_states(tile)]
+                 TileDistribution.ALL_TILES for unit, _ in self.win_pattern.next_states(tile) or ()]
         units.sort()
         borrowed_count_map = defaultdict(
             list,
@@ -217,7 +217,7 @@ class HeuristicPatternMatchWaiting(Waiting):
             temp_searching_group[can_borrowed] = searching_round
             hand_round = hand
             for tile in searching_round.copy():
-                for unit, state in current_state.next_states(tile):
+                for unit, state in current_state.next_states(tile) or ():
                     if basic_hand_borrowed + min_used_tiles <= self.max_used_tiles:
                         logging.debug("test %s in %s at borrow stage %d", unit, hand, can_borrowed)
                         hand_temp = hand_round.copy()
-- 
2.43.0


From a1895aad774ab79b69fe6369e0e58067203be515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:56 +0000
Subject: [PATCH 34/34] fix: a named mixed category may have mixed parts

---
 mahjong/record/category.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 2141d91..6e17861 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -44,6 +44,7 @@ class MixedCategory(Category):
             self._merged_category_classes = None
         self._max = sum(c.__len__() for c in self.category_list)
         self._accumulate_range = list(self._accumulate())
+        self._merged_sep = merged_sep
 
     def _accumulate(self):
         sum_len = 0
@@ -62,6 +63,9 @@ class MixedCategory(Category):
         if self._merged_category_classes:
             belongs_class = self._merged_category_classes[belongs_id]
         sub_id = belongs.category(index - self._accumulate_range[belongs_id])
+        if self._merged_category_classes and isinstance(belongs, MixedCategory):
+            # the fields of a mixed part are those of the part of it.
+            belongs_class = flat_named_tuple_class(self.named_tuple_class, type(sub_id), sep=self._merged_sep)
         concated = (belongs_id,) + sub_id
         return concated if self._merged_category_classes is None else belongs_class(*concated)
 
-- 
2.43.0

