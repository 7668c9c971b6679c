"""Writes DESIGN.tail.md."""
import json,os,subprocess
MISSED = dict(
 c36_defaults_unprepared="translators that make events ready first",
 c16_collection_all="collections of any states, folded, stepped and keyed, against each state alone",
 c40_three_borrowed="hands of few tiles, of which some group has none",
 c22_none_set="values known to be nothing, then stated to be something",
 c28_first_four="logs that begin with many deposits and counters",
 c01_seven_at_most="forms of many pairs asked of next to nothing",
 c27_executor_goes_on="one executor used for many records",
 c29_lower_tag="numbered tags in small letters",
 c07_states_memo="one form used by several threads",
 c29_only_text="files named by a path object",
 c03_limit_ignored="the discards of hands analysed with the four-copy limit off",
 c15_read_as_text="logs read from files in every encoding an XML file may name",
 c22_list_as_bag="lists restated in another order",
 c28_dora_twice="events that read the same one right after another",
 c34_stage_twice="stages named twice",
 c02_near_units="hands for which a form of few units asks every unit near what is held (`lib.tiny_hand`)",
 c04_near_tiles="thin hands whose useful tiles lie far from what is held",
 c06_sorted_mark="hands given in drawing order instead of sorted",
 c08_repeat_shared="results of every tile helper are changed by the monitor and asked for again",
 c10_shared_reading="a reading is changed by its owner and the same text read again",
 c10_any_digit="digits and letters of other scripts",
 c16_quads_of_a_kind="logs made of calls (`sim.calls_log`), which reach four quads",
 c26_shared_values="the values read from a table are changed, others compared, and the file read again",
 c36_own_time="rules that keep a time of their own or give the same commands again",
 c38_relative_templates="decoy files of every name in the working directory of child processes",
 c15_results_in_a_row="generated logs with two results in a row in one hand",
 c20_own_encoding="reports written by processes with another locale",
 c22_nothing_to_compare="logs that state something of which nothing was stated before",
 c23_flat_kept="views of a state taken in any order while later states are made",
 c26_dropna="columns without any value",
 c28_rows_kept="rows handed out are changed and asked for again",
 c30_blank_log="links with an empty log parameter",
 c30_retry="slow servers: requests are counted and timed",
 c32_time_limit="a slow clock",
 c34_same_object="keys that are the same and keys that are equal but other objects",
 c35_early_merge="scopes made in one place and entered in another",
 c14_parts_alias="the caller uses its list of parts for another system",
 c16_collection="collections of earlier moments are looked at later",
 c22_braces="listeners to whom every logged message is given, names with braces and percent signs",
 c22_records_lenient="every way of converting, strictly and leniently",
 c24_default_shared="values of a replay are changed and the commands run again",
 c28_negative="numbers are compared by what is written, scores below zero",
 c34_none_key="keys that are nothing, or next to it",
 c36_falsy_kind="kinds that are empty or combined",
 c05_four_at_most="sets that hold more than four of a tile",
 c06_distinct_window="sets with hundreds of readings",
 c12_players_of_three="the source of calls that take nothing from another",
 c18_calls_order="hands in which a player calls the same run twice (`sim.calls_log`)",
 c20_link="links with quotes, markup and entities in them",
 c22_text_equal="values restated in another writing, and others that read the same",
 c23_default_falsy="defaults for keys that are there, with empty values",
 c27_names_kept="players who share a name and nothing else",
 c35_swallow="everything that can break out of a scope, and code after it",
 c38_numbers="results that belong to the caller are changed after each use",
)
ALSO = dict(c40_some_pair="C05", c27_executor_goes_on="C24", c39_nearly_whole="C15", c39_shared_list="C38", c18_plain_memory="C08", c01_mostly_pairs="C02", c12_players_of_three="C28", c12_red_five_triplet="C16", c11_wall_kept="C38", c15_first_end="C33", c27_names_kept="C21", c33_top_rank="C21", c24_default_shared="C38", c15_round_of_three="C33", c17_tile_zero="C18", c28_negative="C21", c06_sorted_mark="C05", c10_shared_reading="C38", c15_results_in_a_row="C33", c24_grouped="C21", c25_no_number="C26", c26_shared_values="C25, C38", c38_relative_templates="C20")
out=[]
out.append('''## Defects found and repaired

Each is a `fix:` commit in `/repo` and a line in `known_findings.json`. No finding is left unrepaired:
''')
for f in subprocess.run(['git','-C','/repo','log','--reverse','--format=`%h` %s','eebcd0d..HEAD'],capture_output=True,text=True).stdout.splitlines():
    out.append('- '+f.strip())
out.append('''
## Planted bugs

`seeded/` holds the bugs planted from the text of the properties and the code alone. Each passes the 513 tests of the repository, needs something
specific to show (a history, an alias, a rare shape, a fault), and has a demonstration of its own. The table says which check reports it; a bug
that was missed at first stayed in, and the last column says what the workload or the monitor got for it. The missed ones share a pattern, and most of
the strengthening was done by pattern and not for the single bug: **ownership** (results handed out are now changed by the monitor and
asked for again wherever a property hands something out), **history** (objects, analysers, translators, executors and builders are used again,
abandoned, and used for inputs *like* the last one, which is what caches confuse), **environment** (processes with another locale, time zone, hash
seed, working directory, `-O`, a slow clock, a slow server, listeners to the log), and **thin inputs** (empty values, forms of one unit, events that are all there is).

| Bug | Check that reports it | What it breaks | Missed at first; seen since |
|---|---|---|---|''')
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    c=m['property']+((', '+ALSO[d]) if d in ALSO else '')
    out.append('| `%s` | %s | %s | %s |'%(d,c,m['what_it_breaks'].replace('\n',' ').replace('|','/'),MISSED.get(d,'')))
out.append('''
## Costs and limits of the runs

Quick runs take 20–150 s on 8 cores (workers stop asking for new cases after 150 s and still report what they saw), thorough runs at most 780 s. Every kind of case is dealt
evenly to all workers, so that a run cut short has still seen each kind. A case which burns 90 s of CPU, or waits 240 s without using any, is
reported: the code under test answers every such case in well under a second. Optimised interpreters (`-O`), other locales, time zones
and hash seeds are run as child processes by C20, C22 and C38.
''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'DESIGN.tail.md'),'w',encoding='utf-8').write('\n'.join(out))
