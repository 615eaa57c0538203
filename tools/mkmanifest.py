#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/rules.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (technique, level note, rule: what counts as a non-trivial distinct observation)
T = {
 "C01": ("runtime monitoring: every entry point run on generated, mutated and hostile inputs under overflow checks, panic and hang monitors",
         "seeded sampling plus a sweep of every opcode and parameter value; absence of crashes is shown on what was run",
         "distinct inputs that reached the parser, both renderers or the .thermal compiler"),
 "C02": ("runtime monitoring: the parsed commands of each run compared with an independent splitter written from the format tables",
         "seeded sampling and per-opcode sweeps; trusts the length table in grammar.rs",
         "distinct streams whose command boundaries were compared"),
 "C03": ("runtime monitoring: byte conservation checked on the parsed commands of each run",
         "seeded sampling with truncation at every point of selected jobs",
         "distinct streams whose reported bytes were compared with the input"),
 "C04": ("runtime monitoring: compiled bytes compared with a reference tokenizer and with programs built together with their meaning",
         "seeded sampling, exhaustive over control names and byte values; spellings with no documented meaning are not judged",
         "distinct sources whose compiled bytes were compared"),
 "C05": ("runtime monitoring: bytes to .thermal to bytes round trip compared on each run",
         "seeded sampling over all commands, samples and hostile streams",
         "distinct streams that were converted and compiled back"),
 "C06": ("runtime monitoring: characters recorded at the output interface compared with independent code tables, sweeping every table, national set and byte",
         "exhaustive over table x national set x byte values, seeded sampling over histories; trusts the tables in tables.rs",
         "distinct jobs whose decoded characters were compared one by one"),
 "C07": ("runtime monitoring: the style of every recorded character compared with a reference state machine of the style commands",
         "every style command with every parameter, seeded sampling over histories; trusts the style rules in model.rs",
         "distinct jobs whose characters' styles were compared"),
 "C08": ("runtime monitoring: conservation, order, line breaking and non-overlap checked on the recorded text positions of each run",
         "seeded sampling of words, scales, fonts, tabs and positions against a reference line breaker",
         "distinct jobs whose characters and places were compared"),
 "C09": ("runtime monitoring: recorded positions compared with a reference cursor, and the height of the drawn paper with the distance fed",
         "every movement command with every parameter, seeded sampling over histories; trusts the layout rules in model.rs",
         "distinct jobs whose positions were compared"),
 "C10": ("runtime monitoring: dots recorded at the output interface and drawn in the image compared with an independent reader of the bit image formats",
         "sweeps of sizes, densities and scales, seeded sampling of bit patterns",
         "distinct jobs with at least one picture whose dots were compared"),
 "C11": ("runtime monitoring: printed graphics compared with a reference model of both stores and the print buffer over generated histories",
         "seeded sampling over histories of define, delete and print; trusts the store model in model.rs",
         "distinct histories whose printed graphics were compared"),
 "C12": ("runtime monitoring: drawn bars read back by an independent barcode encoder and reader, with the text, sizes and positions",
         "all character pairs of the alphabets, every option value, seeded sampling of data; redundant Code128 code set selections are not judged",
         "distinct jobs with at least one barcode or rejected barcode whose bars were compared"),
 "C13": ("runtime monitoring: drawn QR symbols read by an independent strict decoder and compared with the data stored",
         "all lengths at every level, seeded sampling of data and histories; symbols cut off by the paper and symbols on pages are judged by their dots, not decoded",
         "distinct jobs with at least one symbol decoded or rejected"),
 "C14": ("runtime monitoring: recorded page events and the drawn image compared with a reference composition of the page in paper coordinates",
         "seeded sampling over histories of area, direction, content and print; trusts the page rules in model.rs and paint.rs",
         "distinct jobs whose pages were compared"),
 "C15": ("runtime monitoring: metamorphic oracle, the events after an initialize compared with those of the same job from the start",
         "every setting with every parameter, seeded sampling over histories before and after",
         "distinct pairs of histories with at least two events after the initialize compared"),
 "C16": ("runtime monitoring: every pixel of the image compared with an independent compositor fed with the recorded drawing operations",
         "seeded sampling with all kinds of content, overlaps and edges; glyph shapes come from the same font files through the same font library",
         "distinct jobs whose image was compared pixel by pixel"),
 "C17": ("runtime monitoring: the HTML read by an independent strict reader and compared with the recorded layout",
         "seeded sampling with markup, template syntax and all kinds of content",
         "distinct jobs whose HTML was compared element by element"),
 "C18": ("runtime monitoring: reported errors compared with a reference list, and jobs with one faulty command inserted compared with the job without it",
         "every two byte opcode, seeded sampling of faults at all positions",
         "distinct jobs in which at least one error or its absence was compared"),
 "C19": ("runtime monitoring: differential oracle over used and new parsers and renderers, repeated runs, logging on and off, concurrent threads and separate processes",
         "seeded sampling of job sequences; thread schedules are whatever the scheduler gave; race freedom itself follows from safe Rust and was not instrumented",
         "distinct sequences of jobs whose results were compared"),
 "C20": ("runtime monitoring: CPU time and allocations, counted by an instrumented allocator, of each stage at n and 16 n, and of short commands against the paper they ask for",
         "growth is measured at two sizes per family; a cost below 30 ms or 4 MB at the larger size is not judged; jobs that ask for more than 40 million dots are left out",
         "distinct scaling families and short jobs measured"),
 "C21": ("runtime monitoring: an online monitor, itself an OutputRenderer that reports errors at random, runs an automaton of the allowed calls and checks every argument; outputs, errors and device commands are counted against what it gave out and what the bytes ask for",
         "device commands are compared with a reference splitter unless the last command of the job is incomplete; page_end may come before or after the print of its page",
         "distinct jobs and sequences of commands whose calls were judged"),
 "C22": ("runtime monitoring: every job is recorded, painted and converted with and without debug marks; pixels that differ must lie in a mask painted from the event log",
         "what the marks look like within their box or border is not judged; errors of marks are not judged when their text is not completely on its page",
         "distinct jobs compared with and without marks"),
 "C23": ("runtime monitoring: metamorphic oracle over recorded events and pixels: first job + form feed + second job against the first alone and the second after the settings of the first (own splitter decides what is a setting)",
         "whether a command sets or prints is decided by the harness's table; jobs too large to paint are compared by their events only",
         "distinct pairs of jobs joined by a form feed"),
 "C24": ("runtime monitoring: prefix oracle over recorded events: the log, errors, finished images and HTML of a job cut at a command boundary must be a prefix of those of the whole job, and its ink must stay",
         "jobs are cut after whole commands and whole text runs; ink of an open line is judged by its characters, as justification may move it",
         "distinct jobs cut after a command"),
 "C25": ("runtime monitoring: parsers built over generated command sets run on generated streams, every piece they report compared with an independent reference splitter",
         "seeded sampling of sets in which no opcode is the start of another, exhaustive over short streams of three bytes for a number of sets; sets with ambiguous opcodes are not judged",
         "distinct sets and streams whose pieces were compared"),
 "C26": ("runtime monitoring: metamorphic comparison of a job with the same job to which commands without effect were added, over recorded renderer calls, errors and image bytes",
         "seeded sampling of jobs and of the places and kinds of the added commands; spans of one style that the commands part are joined before they are compared",
         "distinct commands without effect that were added, by whether as repetition or as power-on value"),
}
d = {"version": 1,
 "setup_cmd": "bash -c '. /opt/vp/env.sh; cd harness && CARGO_TARGET_DIR=/verif/target cargo build --release --offline --locked'",
 "checks": [{"property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough",
             "technique": v[0], "level": "exploration", "level_note": v[1]} for k, v in sorted(T.items())],
 "not_applicable": []}
json.dump(d, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
json.dump({k: v[2] for k, v in sorted(T.items())}, open(V + "/tools/rules.json", "w"), indent=1)
open(V + "/tools/rules.json", "a").write("\n")
