#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusts git 2.43 as the reader of the generated repositories, TLC, and the recorder in lib/; bounded by "
         "the generated scenarios (seeded).")
NOTE = {
 "C01": "Every CSV/human row is recomputed by TLC from the modelled history (Tally, TableView) and compared cell by cell.",
 "C02": "Order, ties, cuts at -n and their independence of every other option decided by Ranked/Kept in the spec.",
 "C03": "Merge commits (two and more parents, evil merges, merges only) through every command and mode.",
 "C04": "Same query at many GOMAXPROCS, with the git stand-in permuting completion order; outputs must be byte-equal and each right; the pipeline protocol is model-checked separately.",
 "C05": "The k-th git process fails, is killed, or breaks off after partial output, for every k; the spec's Failed clauses decide.",
 "C06": "Runs that must end: normal, failing, flooding, slow, and refused by the file system; liveness of the pipeline is checked with TLC.",
 "C07": "Cold, warm, partial, cross-mode caches over a changing repository; every run judged from the history alone, plus fetch clauses.",
 "C08": "Crash, torn write, refusal and short write at every file operation on the cache (seccomp-notify supervisor), damage to the file between runs.",
 "C09": "Failed or killed run first, then a healthy one, for each failure point.",
 "C10": "Identity algebra (Identity.tla) against generated mailmaps in both places, changing between runs.",
 "C11": "Directory snapshots around every run and several repositories sharing one cache; clauses of Disk.tla.",
 "C12": "Ignored revisions in every command, with comments, case, abbreviations, duplicates.",
 "C13": "File names and authors that look like git's own output, settings that change it, gigantic commits.",
 "C14": "Pathspec.tla decides which files a path argument covers; everywhere in the tree, all modes, renames over the boundary.",
 "C15": "Author patterns and date limits against Select.tla, including second-exact edges and mailmapped authors.",
 "C16": "Ranges, symmetric differences, tags, exclusions, ambiguous arguments against History.tla walk.",
 "C17": "Winner and value of every node recomputed from the modelled history.",
 "C18": "Path list, depth cuts, order, hidden files from the modelled index and history.",
 "C19": "Civil.tla decides buckets in real time zones (tables generated from zoneinfo); every row of the timeline is checked.",
 "C20": "Winner, value, and bar arithmetic of every row.",
 "C21": "Repeats of the same query under scheduler noise; digests must be equal; each right.",
 "C22": "Widths, truncation and rounding from Render.tla with the East-Asian width table measured independently.",
 "C23": "Relations between reports of different commands over one world (Relations.tla).",
 "C26": "One modelled world, reached through links, git, GIT_DIR, submodules, linked working trees, shallow clones (History!CutOff) and odd environments; each run judged from the world alone.",
 "C28": "stdout accepts the first k bytes only (seccomp-notify supervisor); exit status, message and the delivered prefix judged by Delivery.tla, the same predicate that Output.tla proves of the design.",
 "C27": "Args.tla parses the command line itself; every line of the model-checked grammar (ArgsModel) is replayed.",
 "C25": "Runs on a pseudo-terminal; the screen is judged as the report, the progress lines by Terminal.tla, completion order permuted by the git stand-in.",
 "C24": "Overlapping runs under scheduled interleavings of their cache file operations.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
out = dict(version=1, setup_cmd="bin/setup", hooks=dict(
    guard="verif", enable="no hooks: the checks build /repo as it is and observe it from outside", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="bin/check %s" % p["id"],
                 thorough_cmd="VERIF_TIER=thorough bin/check %s" % p["id"],
                 technique="TLA+ specification; TLC checks recorded traces of the real git-who against it",
                 level="model_checking", level_note=NOTE[p["id"]] + " " + TRUST) for p in props],
    not_applicable=[], notes="bin/check builds git-who from /repo's working tree into a scratch directory.")
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
