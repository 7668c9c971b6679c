"""Writes properties.jsonl and MANIFEST.json from one table. Run from anywhere: python3 meta/gen.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, S = "mahjong/container/pattern/reasoning.py", "mahjong/container/set.py"
WIN, TILE, CU = "mahjong/container/pattern/win.py", "mahjong/tile/definition.py", "mahjong/container/utils.py"
READ, STATE, EVENT = "mahjong/record/reader.py", "mahjong/record/state.py", "mahjong/record/utils/event.py"
MELD, CHECK, TOOL = "mahjong/record/utils/value/meld.py", "mahjong/record/checker.py", "mahjong/tenhou_record_check.py"
DEF, CMD, EXE = "mahjong/record/universe/tenhou/event_definition.py", "mahjong/record/universe/command.py", "mahjong/record/universe/executor.py"
TRANS, MATCH, INTERP = "mahjong/record/universe/translator.py", "mahjong/record/universe/tenhou/xml_macher.py", "mahjong/record/universe/interpreter.py"
PROP, FMT = "mahjong/record/universe/property_manager.py", "mahjong/record/universe/format.py"
INIT = "mahjong/record/universe/tenhou/__init__.py"

# id, title, statement, over, text, why_tests_cant, files, mechanism[(name, where)], observe_at, technique, note
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note))


REFNOTE = "Trusts the reference model rv/ref.py, written from the rules of the game without the library; hands have at most four copies of a tile."
LOGNOTE = ("Trusts rv/model.py, an independent replay of the XML, which is itself cross-checked against the books kept by the game "
           "generator rv/sim.py while it plays; recorded logs from tests/ are included.")

prop("C01", "The waiting step of a hand is exact",
     "For every hand, the waiting step (shanten) reported by the heuristic analyser for a win form (any number of groups and pairs, or of distinct pairs) "
     "is exactly the smallest number of tiles to exchange before one more completes it, -1 when complete. "
     "All its entry points report the same step, whatever the order in which the tiles were given.",
     ["inputs"], "all hands with up to four copies of a tile, from none to a few more than the form needs, for 0..4 groups and 0..3 pairs and for 1..8 distinct pairs",
     "The tests compare about a dozen hands; the search prunes and cuts by bounds that only show on rare shapes (quads, overlapping runs, copy limits).",
     [R, WIN], [("branch-and-bound over tile units with heuristic cut-offs", R), ("four-copy limit", R)],
     ["before_waiting_step()", "waiting_and_useful_tiles()"],
     "runtime monitoring: online reference-model oracle (dynamic programming over suits) over generated hands",
     "Exploration: thousands of hands per run in nine styles, each judged in full. " + REFNOTE)
prop("C02", "The useful tiles of a hand are exactly those whose draw lowers the step",
     "For every hand, the useful tiles reported are exactly the tiles whose draw lowers the waiting step, each once; a red five counts as a five. "
     "A tile of which the hand already holds four copies is never useful.",
     ["inputs"], "all hands from four tiles short of the form to four tiles more, for 0..4 groups and 0..3 pairs and for 1..8 distinct pairs",
     "Tests list the useful tiles of a handful of hands; missing or extra tiles appear only on particular overlaps.",
     [R], [("collection of the missing tiles over all best plans", R), ("four-copy limit", R)],
     ["useful_tiles()", "waiting_and_useful_tiles()"],
     "runtime monitoring: online reference-model oracle over generated hands", "Exploration. " + REFNOTE)
prop("C03", "The best discards of a hand are exactly the lowest-step ones",
     "For every hand with one tile too many, the discards listed are exactly the ones that keep the lowest reachable waiting step, each listed once, "
     "with that step and with exactly the useful tiles of the hand that remains. "
     "Each listed entry agrees with a separate analysis of the hand without that tile. "
     "This holds with the four-copy limit on or off.",
     ["inputs"], "all hands of 3m+2 tiles for 0..4 groups left, for seven pairs, and hands of a few tiles more or less for other numbers of groups and pairs",
     "Tests look at a few hands; the batch search shares work between discards, which can drop or merge candidates.",
     [R], [("shared batch search over discards", R)], ["batch_waiting_and_useful_tiles()"],
     "runtime monitoring: online reference-model oracle over generated hands", "Exploration. " + REFNOTE)
prop("C04", "The three analysers agree with the rules and with each other",
     "For every short hand the exhaustive analyser, the pattern analyser and the heuristic analyser report the same waiting step and the same useful tiles, "
     "those given by the rules, through every entry point, with the four-copy limit on or off. "
     "A complete hand is reported as complete by all of them.",
     ["inputs", "configurations"], "hands of up to 8 tiles, 0..2 groups and a pair or 2..3 pairs, three analysers, limit on and off",
     "Tests use one hand or two per analyser and never turn the limit off.",
     [R], [("exhaustive search", R), ("pattern enumeration", R), ("ignore_4counts option", R)],
     ["waiting_and_useful_tiles()", "before_waiting_step()", "useful_tiles()"],
     "runtime monitoring: differential and reference-model oracle over generated hands",
     "Exploration; the exhaustive analysers are exponential, so only short hands. " + REFNOTE)
prop("C05", "A hand matches a win form exactly when it contains it",
     "A set of tiles matches a win form exactly when it contains that many groups (runs of three or triplets) and pairs, or that many distinct pairs, disjointly; "
     "larger sets match when they contain the form. Four equal tiles are never two pairs of the seven-pairs form.",
     ["inputs"], "all sets of 0..30 tiles, 0..4 groups, 0..2 pairs, 1..7 distinct pairs",
     "Tests contain about ten hands.", [WIN], [("recursive unit removal with ordering", WIN)], ["NormalTypeWin.match()", "UniquePairs.match()"],
     "runtime monitoring: reference-model oracle over generated hands", "Exploration. " + REFNOTE)
prop("C06", "All readings of a complete hand are listed, and only those",
     "The readings listed for a hand and a form are all the ways to take the groups and pairs from it, and nothing else; the unique listing has each reading once. "
     "A hand without the form has no reading.",
     ["inputs"], "complete and larger hands of one to many readings",
     "Tests list readings for two or three hands.", [WIN], [("recursive enumeration of win selections", WIN)], ["win_selections()", "unique_win_selections()"],
     "runtime monitoring: reference enumeration as oracle over generated hands", "Exploration. " + REFNOTE)
prop("C07", "Analyses do not disturb each other or the hands they are given",
     "The answer of an analysis depends only on the contents of the hand: not on the order its tiles were added in, on red or plain fives, on earlier, abandoned, "
     "interleaved or concurrent analyses, or on whether analyser and form objects are shared. No analysis changes the hand given to it or the shared units of a tile.",
     ["histories", "schedules"], "histories of 12..40 analyses over shared hands, analysers and forms; generators abandoned and interleaved; threads with own and shared analysers",
     "Tests make one analysis per object.", [R, WIN, S, TILE], [("pooled tile units", TILE), ("analyser state kept between calls", R)],
     ["every analysis entry point", "the hand after each call"],
     "runtime monitoring: online oracle over recorded histories, state-unchanged assertions after every operation",
     "Exploration of histories and thread schedules. " + REFNOTE)
prop("C08", "Tiles: identity, order, red fives, units and display",
     "Two tiles are equal exactly when they are the same tile, a red five being a five of its suit, with hashes and order to match (suits m, p, s, z, then number). "
     "The pair, triplet, run and successors of a tile are those of the rules, and its notation and Unicode character show it.",
     ["inputs", "histories"], "all 37 tile faces and all pairs of them, made in any order, again and again and in threads",
     "Tests compare a few tiles.", [TILE, TOOL, "mahjong/record/utils/value/tile.py"], [("tile pool", TILE), ("colour and number order", TILE)],
     ["==, <, hash, str", "pair(), triplet(), flush()", "to_unicode_tile()"],
     "runtime monitoring: table oracle over all faces, with creation-order and thread stress", "Exhaustive over faces and pairs of faces, exploration over creation histories.")
prop("C09", "Tile multisets obey the laws of multisets",
     "Sum, difference, intersection, union, containment, exclusion, size, listing, equality and order of tile sets are those of plain multisets of tiles, however the sets were built, "
     "and never change their operands.",
     ["inputs"], "random pairs and triples of multisets, every constructor, any insertion order, red and plain fives",
     "Tests sample a few sums and differences.", [S, CU], [("counter arithmetic", S)], ["TileSet operators and methods"],
     "runtime monitoring: collections.Counter over kinds as oracle", "Exploration.")
prop("C10", "Hand notation is read exactly and printed so that it reads back",
     "Reading a hand in notation gives exactly the tiles written, in order, with zeros as red fives and anything between the groups ignored. "
     "Printing a set of tiles and reading the text gives the set back.",
     ["inputs"], "texts of digit groups in any order and splitting, with red fives, separators and foreign text",
     "Tests read about five texts.", [CU, S, TILE], [("regular expression over groups", CU), ("grouped printing", S)], ["tiles_from_string()", "tile_set_from_string()", "str(TileSet)"],
     "runtime monitoring: independent scanner and round-trip oracle", "Exploration.")
prop("C11", "Log tile numbers, the composition of the wall and dora follow the rules",
     "Every log number 0..135 is the right tile (16, 52 and 88 the red fives) and the numbers listed for a tile are exactly its own. "
     "The tiles of a game are right for three and four players, with and without red fives, and every list of indicators gives the right dora.",
     ["inputs", "configurations"], "all numbers, all faces, both player counts, all indicators and random lists",
     "Tests touch a few numbers.", ["mahjong/record/const.py", "mahjong/record/utils/value/tile.py", "mahjong/record/utils/constant.py"],
     [("mixed positional category", "mahjong/record/category.py"), ("dora successor", "mahjong/record/const.py")],
     ["tile_from_tenhou()", "tile_to_tenhou_range()", "initial_tiles()", "doras()"],
     "runtime monitoring: rule-table oracle over all inputs", "Exhaustive over numbers, faces and single indicators; doras of a three-player game are not claimed.")
prop("C12", "Every call code is decoded to the call it encodes",
     "For every code of a legal call by every player, the kind of call, the caller's own tiles, the called tile, the source player (the caller himself for a closed quad or a north) and openness are those encoded. "
     "An added quad belongs to exactly the triplet it extends.",
     ["inputs"], "all runs, triplets, added, open and concealed quads and north removals, every called tile, source and caller",
     "Tests decode three or four codes.", [MELD, "mahjong/record/utils/bit.py"], [("bit layouts", MELD), ("rotation of the source seat", MELD)],
     ["meld_from()", "meld_type()", "own, called, from_who, is_opened()"],
     "runtime monitoring: independent decoder and encoder as oracle over the whole code space", "Exhaustive over legal codes.")
prop("C13", "The rule set of a game is decoded from its code",
     "For every game code, players, rounds, red fives, open tanyao, speed, level, tips and shadow are those of the code, and the description line says them. "
     "Two rule sets are equal exactly when all these rules are.",
     ["inputs"], "all 65536 codes, as text and as number", "Tests decode four codes.", ["mahjong/record/utils/value/gametype.py", "mahjong/record/utils/bit.py"],
     [("bit layout", "mahjong/record/utils/value/gametype.py")], ["GameType methods, str, =="],
     "runtime monitoring: independent decoder as oracle over the whole code space", "Exhaustive over codes.")
prop("C14", "Positional categories convert both ways without loss",
     "Converting an index to its category tuple and back gives the index, and the tuples of all indices are all tuples of the system, each once, in positional order. "
     "This holds for flat, open-ended, named, mixed and nested systems.",
     ["inputs"], "random systems of one to four digits, mixed systems of one to five unequal parts, nesting, all indices up to a bound",
     "Tests cover three systems of equal parts.", ["mahjong/record/category.py"], [("mixed radix arithmetic", "mahjong/record/category.py")], ["category()", "index()"],
     "runtime monitoring: positional-arithmetic oracle", "Exploration; open-ended systems have no length.")
prop("C15", "A parsed record holds exactly the log",
     "Reading a log gives all its events once and in order with their attributes, split into its hands, with the right players, rules, round, counters, deposits, dealer, first indicator, "
     "results of each hand and final totals. The log read is not changed, and reading from a file, a stream or an element gives the same.",
     ["inputs", "histories"], "logs of three and four players, 1..8 hands, all calls, aborts, several winners, disconnections",
     "Tests read six recorded logs and check a few fields.", [READ, EVENT, "mahjong/record/stage.py", "mahjong/record/player.py"],
     [("splitting at hand starts", READ), ("collection of results", READ)], ["TenhouRecord, TenhouGame, TenhouPlayer fields"],
     "runtime monitoring: offline comparison of the parsed record with an independent reading of the XML", "Exploration. " + LOGNOTE)
prop("C16", "Replayed player states follow the game",
     "After every event of a log, each player's hand, calls (an added quad merged into its triplet), discards and the dora indicators from the replayed states are those of the game at that moment. "
     "Replaying never changes earlier states, the ways to fold a game agree, and states followed together are each as if followed alone.",
     ["histories"], "every prefix of generated and recorded games with all kinds of calls",
     "Tests check one or two moments of one recorded game.", [STATE, MELD, READ], [("state transition per event", STATE), ("merging of added quads", STATE)],
     ["PlayerHand, PlayerMeld, DiscardTiles, DoraIndicators, GameStateCollection"],
     "runtime monitoring: online replay oracle after every event", "Exploration. " + LOGNOTE)
prop("C17", "The unseen tiles are exactly those nobody has shown",
     "At every moment the unseen tiles are all tiles of the game except the indicators turned, the tiles discarded and the tiles laid down by callers so far. "
     "They start anew with every hand and are right for three and four players.",
     ["histories"], "every prefix of generated and recorded games, every tile including number 0 shown in every way",
     "Tests never look at them after a call or in a three-player game.", [STATE, "mahjong/record/const.py"], [("subtraction per shown tile", STATE)], ["InvisibleTiles"],
     "runtime monitoring: online replay oracle and disjointness assertions after every event", "Exploration. " + LOGNOTE)
prop("C18", "Report rows describe the game as it was",
     "The efficiency report of a player has one row for every discard the player made by choice, in order, with the hand, calls and chosen tile of that moment, and a red or blue marking by how good the choice was. "
     "For every candidate discard, overall and per hand type, it states the true steps left, useful tiles and how many of them the player has not seen.",
     ["inputs", "histories"], "generated games with calls, red fives, declined wins, three and four players, every seat; API and finished HTML",
     "No test runs the report.", [CHECK, TOOL, STATE, R], [("state scan per choice", CHECK), ("reasoning per hand type", CHECK), ("HTML template", "mahjong/templates")],
     ["game_reason_list()", "the HTML file"],
     "runtime monitoring: row-by-row oracle from log replay and reference hand analysis, over API output and parsed HTML", "Exploration. " + LOGNOTE + " " + REFNOTE)
prop("C19", "Recommendations and error ratings of a report are right",
     "The recommended discards are exactly those leaving the fewest steps over all hand types, and among them the most unseen useful tiles. "
     "The error rating of a choice is 0 when it was recommended, the share of drawing chances given up when it keeps the step, and is always within 0..1.",
     ["inputs", "histories"], "games of C18 with careful play, endgames, dead waits and complete hands",
     "No test looks at ratings.", [CHECK, TOOL], [("merging of reasonings of one discard", TOOL), ("ranking and rating", TOOL)],
     ["game_reason_list()", "the HTML file"],
     "runtime monitoring: reference-model oracle over report output", "Exploration. " + LOGNOTE + " " + REFNOTE)
prop("C20", "Report files are complete, named per player and inert",
     "The report tool writes exactly one finished HTML file per player asked for, in the working directory, under a name of that player and log, and says so. "
     "Each file shows the log's link, the record line, the player and every hand; no player name can turn into markup, template text or a path.",
     ["inputs"], "hostile and ordinary names, every choice of players, spellings of the link",
     "No test runs the tool.", [TOOL, "mahjong/templates"], [("escaping template", TOOL), ("file naming", TOOL)], ["files and output of tenhou-check"],
     "runtime monitoring: scratch-directory and network-recorder monitors, HTML parsed as a browser would", "Exploration; the network is replaced at the transport.")
prop("C21", "The command stream reconstructs the game",
     "Folding the commands of a record gives, after every event, every property the log determines: round, scores, deposits, dealer, hands, discards and whether they came from the hand, calls, riichi, results, yaku, connection, final ranks. "
     "Every event leaves commands, stamped with its number, its kind and the state they result in, in order.",
     ["inputs", "histories"], "every prefix of generated and recorded logs",
     "Tests check that conversion does not fail and a few values of one log.", [DEF, CMD, INTERP, TRANS, INIT], [("one rule per event", DEF), ("state stamping", TRANS)],
     ["to_commands()", "to_command_records()"],
     "runtime monitoring: trace oracle — the command trace is folded independently and compared with a replay of the log after every event",
     "Exploration. " + LOGNOTE + " The red-five flag of the record is not claimed.")
prop("C22", "Strict checking catches contradictions exactly, lenient reading never fails",
     "Strict replay stops at exactly the first command that contradicts the state (a score, a winning hand, a name) and nowhere on a consistent log; strict conversion refuses unknown events. "
     "Lenient replay and conversion give every state and command, skipping only unknown events.",
     ["inputs", "fault_sequences"], "logs with one planted contradiction or unknown events anywhere, and consistent logs",
     "Tests replay consistent recorded logs only.", [EXE, TRANS, DEF], [("assert-or-set commands", EXE), ("strict flag", TRANS)], ["GameExecutor(strict_mode)", "to_commands(strict)"],
     "runtime monitoring: fault injection into logs with an independent contradiction oracle", "Exploration of fault positions. " + LOGNOTE)
prop("C23", "State snapshots never change",
     "Setting or dropping a value in a state gives a new state and leaves every earlier one as it was, at every depth; direct changes are refused without effect. "
     "Every snapshot of a replay stays as it was when produced.",
     ["histories"], "random trees under long sequences of set, drop and setdefault over old and new versions; replays",
     "Tests make one or two changes.", [EXE], [("path-copying dictionary", EXE)], ["TransferDict", "states of GameExecutor.execute()"],
     "runtime monitoring: every version ever made is compared again at the end with a plain model", "Exploration of histories.")
prop("C24", "Executing a command changes exactly what it names",
     "After each executed command the named property of the named player, hand or record has the value the update method defines, every other property is as before, and the snapshot carries the command's time. "
     "Executor, interpreter and the state stamped on commands agree.",
     ["inputs", "histories"], "command lists of logs and random command lists over every property and update method",
     "Tests only check that execution yields something.", [EXE, INTERP, PROP, FMT], [("update methods", INTERP), ("scoped state tree", EXE)], ["GameExecutor.execute()", "GameInterpreter.interpret()"],
     "runtime monitoring: three implementations in lockstep with an independent fold", "Exploration.")
prop("C25", "Commands survive being written to CSV and read back",
     "Writing any list of commands to CSV and reading it back gives equal commands: time, event, scope, player, property, method, value and state, as objects and as text. "
     "The convert tool's file holds exactly the commands of the log.",
     ["inputs"], "commands of logs with hostile names (numbers, NA, quotes, commas, spaces) and random commands over every property",
     "Tests do not read a file back with odd texts.", [CMD, PROP, "mahjong/universe_paifu_convert.py"], [("typed text conversion", PROP), ("csv reading", CMD)],
     ["to_record(), to_dataframe(), read_clean_csv(), from_record()"],
     "runtime monitoring: round-trip oracle over generated command traces", "Exploration; in files whose texts are all missing or numbers pandas may widen an integer.")
prop("C26", "State tables survive being written to CSV and read back",
     "Writing the table of states of any command list to CSV and reading it back gives, in every cell, the state the replay had at that command, unset cells missing, with the same columns and times.",
     ["inputs"], "tables of logs with ordinary and hostile names and of random command lists",
     "Tests do not read a table back.", [EXE, PROP, "mahjong/record/util_functions.py"], [("column types", EXE), ("text conversion", PROP)],
     ["execute_as_dataframe()", "GameExecutor.read_clean_csv()"],
     "runtime monitoring: round-trip oracle against the live states", "Exploration.")
prop("C27", "Conversions of records do not influence each other",
     "The commands and states obtained from a record are the same however conversions and replays of the same or other records are interleaved with it, abandoned, failed part-way, repeated, or run in other threads. "
     "Converting a record does not change it.",
     ["schedules", "histories"], "random interleavings of 2..4 conversions with abandonment, failures and threads",
     "Tests convert one record at a time.", [INIT, TRANS, MATCH, INTERP], [("translating rules shared by all conversions", MATCH), ("state per conversion", TRANS)],
     ["to_command_iter()", "to_command_records()", "to_commands()", "GameExecutor.execute()"],
     "runtime monitoring: randomised interleaving and thread stress with per-stream trace oracles", "Exploration of schedules. " + LOGNOTE)
prop("C28", "The paifu export tells the log row by row",
     "Exporting an event, a hand or a record gives exactly the rows of the log in order: starting hands and scores, indicator, deposits, draws, discards, calls with own and called tiles and source, riichi and its payment, results and final scores, each under its hand. "
     "The rows alone give back every player's hand after every discard.",
     ["inputs", "histories"], "generated and recorded logs, all calls, aborts, three and four players",
     "No test looks at exported rows.", [EVENT, READ], [("rows per event", EVENT), ("hand label and final rows", READ)], ["to_paifu() of event, hand and record"],
     "runtime monitoring: trace oracle, plus conservation (hands rebuilt from rows alone)", "Exploration. " + LOGNOTE + " The player shown for indicators is not claimed.")
prop("C29", "The light table of a log file holds every attribute of every event",
     "The table of a log file has exactly one row per attribute of every event, in event order, with the event's tag (and number, for numbered tags) in rows of their own and the log's id from the file name. "
     "The abridged table is the full one without the numbered events.",
     ["inputs"], "generated and recorded logs, odd tags, file names and folders",
     "No test reads it.", ["mahjong/record/util_functions.py"], [("event walk", "mahjong/record/util_functions.py")], ["light_dataframe_from_file()"],
     "runtime monitoring: independent walk over the file as oracle", "Exploration.")
prop("C30", "Links lead to the right log, and failures to fetch are reported",
     "The log id of a link is its log parameter in every spelling, links and download addresses made from it name that log, and a link without one is refused. "
     "Reading from a link makes one GET request to that address within the time asked for and gives the same record as the file; failed and damaged downloads raise and leave later ones right.",
     ["inputs", "fault_sequences"], "spellings of links, refusals, time-outs, damaged pages, in sequence",
     "Tests read links offline once.", [READ], [("query parsing", READ), ("fetch", READ)], ["log_id_from_url()", "log_id_to_url()", "download_url()", "from_url()"],
     "runtime monitoring: recording stand-in at the HTTP transport with fault injection", "Exploration; the network is replaced at the transport of requests.")
prop("C31", "Drawing from a wall is without replacement and fair",
     "The weights of a wall are the tiles left in it, drawing a tile leaves a wall without it and the old one as it was, and a sequence of draws never holds a tile more often than the wall, whichever other samplers run. "
     "Every order of the tiles left is equally likely. A distribution of one's own is drawn from by its weights, each draw from what the one before left.",
     ["inputs", "histories"], "walls of 1..136 tiles, sequences up to and past the last tile, interleaved samplers, scripted and loaded distributions; frequencies within 6 sigma",
     "No test draws.", ["mahjong/container/distribution.py", S], [("weighted choice and picking", "mahjong/container/distribution.py")], ["StaticWall.weights(), weight_of(), pick(), sample()"],
     "runtime monitoring: conservation monitor on draws and statistical oracle", "Exploration; fairness is judged statistically (position and pair frequencies), biases under about 5 % of a tile's share go unseen.")
prop("C32", "The win rate tool reports what happened in its experiments",
     "For a hand of 14 tiles the tool draws the stated number of tiles from those left in every experiment, and reports for each different discard in how many it held a win (four groups and a pair, or seven pairs), the rate, and pick rates that add up, best first. "
     "A hand of another size is asked for again.",
     ["inputs", "histories"], "complete, waiting and hopeless hands, 0 to all draws, 1..1000 experiments",
     "No test runs the tool.", ["mahjong/win_rate_demo.py", "mahjong/container/distribution.py", WIN], [("experiment loop", "mahjong/win_rate_demo.py"), ("pick rate matrix", "mahjong/win_rate_demo.py")],
     ["output of mahjong-win-rate", "walls sampled"],
     "runtime monitoring: recorder on the sampled walls, every experiment judged again by the reference", "Exploration. " + REFNOTE + " The pick rates are only claimed to be rates, to add up, to order the list, and to be 100 % for an only winner.")
prop("C33", "Records, hands, players, events and calls say what the log says",
     "The text of a record names its rules and ranks its players by score with their points; that of a hand names its round, counters and all results with winner, loser and score; that of a player the name, rank and rating. "
     "The text of an event says who did what with which tile and quotes the event.",
     ["inputs"], "generated and recorded logs, odd names, ties, several winners, aborts",
     "Tests print one or two of them.", [READ, EVENT, "mahjong/record/player.py", MELD], [("ranking by score", READ), ("result lines", READ), ("event text", EVENT)],
     ["str() and repr() of record, hand, player, event, call"],
     "runtime monitoring: texts parsed and compared with an independent reading of the log", "Exploration. " + LOGNOTE)
prop("C34", "Splitting a stream into staged groups loses and repeats nothing",
     "A staged grouping gives, in order, maximal groups that follow the stages (or one key, outside them) under the right key, which together are the stream. "
     "Reading groups partly, not at all or late changes no other group, and the source is read at most one item ahead.",
     ["inputs", "schedules"], "streams over small alphabets, 0..4 stages, key functions, all manners of reading",
     "Tests read four streams in full.", ["mahjong/record/stage.py"], [("stage acceptance", "mahjong/record/stage.py"), ("group hand-over", "mahjong/record/stage.py")], ["StageGroupby"],
     "runtime monitoring: independent splitter as oracle over random consumption schedules", "Exploration.")
prop("C35", "Defaults given in a scope hold exactly inside it",
     "A value built inside nested scopes has exactly the fields in force, innermost and explicit ones winning, including falsy ones. "
     "Leaving a scope, in order, by exception, failed construction or abandoned generator, restores the fields as before it; builders are independent.",
     ["histories", "schedules"], "random trees of scopes, exceptions, abandoned generators, several builders, threads",
     "No test builds under nested scopes.", ["mahjong/record/utils/builder.py"], [("stack of defaults", "mahjong/record/utils/builder.py")], ["Builder.when(), Builder()"],
     "runtime monitoring: model stack kept beside the real one over random histories", "Exploration.")
prop("C36", "Translation rules answer in their order and are stamped right",
     "An event, once made ready, is answered by the first rule giving commands, trying rules for its name and an attribute, then for its name, then for an attribute, then general ones, each in order of registration. "
     "The rule is shown the state of all commands so far; its commands get that event's time, the resulting state and, only where missing, the rule's kind; unanswered events are refused when strict and skipped otherwise.",
     ["inputs", "histories"], "random sets of rules (always, sometimes, never answering, failing) and random event streams",
     "Tests use the built-in rules only.", [TRANS, MATCH, INTERP], [("dispatch order", MATCH), ("post-processing", TRANS)], ["TenhouCommandTranslator"],
     "runtime monitoring: independent dispatcher in lockstep with the real one", "Exploration.")

prop("C37", "Every move of a log belongs to exactly one player",
     "For every log, each draw, discard, call, riichi and win is recognised as that move by exactly the player who made it and as no other move; all other elements are nobody's. "
     "The tile or called meld read from it is the one in the log, and choices are exactly discards, calls and wins.",
     ["inputs"], "every element of generated and recorded logs of 3 and 4 players, shown to every player in any order",
     "Tests check a few elements of one log; the letters and numbers of tags vary with seat and tile.",
     [READ, EVENT, MELD], [("recognition of tags per seat", READ), ("event views", EVENT)], ["TenhouPlayer", "TenhouEvent"],
     "runtime monitoring: independent reading of every log element as oracle", "Exploration. " + LOGNOTE)
prop("C38", "Every answer depends on its input alone",
     "The answer of any use of the library - analysis, notation, records, states, reports, tables, categories - is the same whether it is the first thing a process does "
     "or follows any other uses, in one thread or in several, and whatever the locale, time zone, hash seed, optimisation switch and working directory.",
     ["inputs", "histories", "schedules", "configurations"], "batches of uses of all parts in fresh processes, shuffled orders, and threads with small switch intervals",
     "Tests run in one order in one process; shared caches, defaults and singletons show only in other histories.",
     [R, S, TILE, CU, READ, STATE, TRANS, PROP, FMT], [("caches, memoised singletons, shared defaults", S), ("thread-local scopes", CU)], ["every public operation in rv/ops.py"],
     "runtime monitoring: differential oracle over histories, schedules and environments of the real code", "Exploration.")

prop("C39", "Bit fields and lists of numbers in a log are read exactly",
     "For every description of sixteen bits, reading a code gives each field exactly its bits, lowest first, flags as true or false; packing the fields again gives the code, "
     "and a number of more than sixteen bits is refused. Every list of numbers is read in order, whole numbers as integers and the others as they are.",
     ["inputs"], "random layouts of 1..16 fields over many codes, as text and as number; lists of up to 30 numbers in every spelling, under several separators",
     "Tests read a few codes and lists in layouts that are in use.", ["mahjong/record/utils/bit.py", "mahjong/record/utils/value/general.py"],
     [("layout from a description", "mahjong/record/utils/bit.py"), ("whole and broken numbers", "mahjong/record/utils/value/general.py")],
     ["bit_struct_from_desc(), named_tuple_from_desc(), unpack_with(), repack_to()", "number_list()"],
     "runtime monitoring: shifting-and-masking oracle over random layouts and codes, numbers meant as oracle of lists", "Exploration.")
prop("C40", "Win forms of one's own are judged like the library's",
     "For every win form a user describes as a win pattern (groups by their first tile, however far apart their tiles are, and pairs, taken in any order), a hand wins exactly when some choice of the "
     "form's units lies in it, its readings are all such choices, and every analyser's step is the least number of tiles missing, its useful tiles the tiles missing from some "
     "nearest form, and its best discards those that some nearest form has no use for, with the four-copy limit on or off.",
     ["inputs"], "random forms of nine families (triplets, runs, one suit, no ends, gapped runs, runs of winds, three suits, groups of four, mixtures; 0..4 groups, 0..5 pairs; tiles without units told as none or as an empty list) with hands near, far and of few tiles",
     "Tests use the library's own two forms.", ["mahjong/container/pattern/win.py", "mahjong/container/pattern/reasoning.py"],
     [("search of units in the hand", "mahjong/container/pattern/win.py WinPattern"), ("search with tiles borrowed", "mahjong/container/pattern/reasoning.py")],
     ["match(), unique_win_selections(), before_waiting_step(), useful_tiles(), batch_waiting_and_useful_tiles() of subclasses of WinPattern"],
     "runtime monitoring: enumeration of every way to make a random form as oracle of the win test and the analysers", "Exploration.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
         "not_applicable": [],
         "notes": "No hooks: every monitor observes the public API, files, standard streams and the HTTP transport. See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write("\n")


main()
