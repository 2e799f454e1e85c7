"""The checks, one per property."""
from . import families as f, models as md
from .framework import Check

CSV = ["csv-shape", "row-count", "row-twice", "row-unknown", "row-missing", "col-*"]
FAIL = ["failed", "panic", "hang"]
REJ = ["accepted", "report-despite-failure", "no-explanation"]
HUMAN = ["row-text", "frame", "more", "table-not-empty"]
TREE = ["tree-paths", "winner", "author-absent", "author-repeated"]
HIST = ["timeline", "hist-row", "hist-blank", "hist-bar"]
CHECKS = {}


def check(pid, families, **kw):
    CHECKS[pid] = Check(pid, families, **kw)


check("C01", [("totals", f.totals, 24, 200), ("modes", f.totals_all_modes, 8, 60),
              ("paths", f.few_authors_many_paths, 14, 120), ("tiny", f.tiny, 12, 60),
              ("dates", f.dates, 10, 80), ("small", f.small_worlds, 8, 120)],
      clauses=CSV + FAIL + HUMAN, models=[md.small_worlds_model])
check("C02", [("ties", f.ties, 30, 250), ("many", f.many_authors, 10, 60), ("totals", f.totals, 6, 40), ("flags", f.flag_forms, 4, 30), ("small", f.small_worlds, 5, 60)],
      clauses=CSV + FAIL + REJ + HUMAN + ["order"], models=[md.small_worlds_model])
check("C03", [("merges", f.merges, 30, 200), ("only", f.only_merges, 14, 100), ("small", f.small_worlds, 6, 60)],
      exclude=["width"], models=[md.small_worlds_model])
check("C13", [("odd", f.odd_paths, 18, 150), ("links", f.links, 8, 80), ("hex", f.hexnames, 12, 80), ("words", f.own_words, 10, 60), ("giant", f.giant_commits, 3, 12),
              ("settings", f.settings, 14, 126), ("follow", f.settings_paths, 16, 96), ("encodings", f.encodings, 4, 40), ("hashes", f.self_hash, 3, 30),
              ("breaks", f.line_breaks, 6, 60), ("huge", f.huge_names, 1, 6)])
check("C14", [("args", f.path_args, 22, 200), ("everywhere", f.path_args_everywhere, 8, 60),
              ("odd", f.path_args_odd, 8, 60), ("renames", f.path_boundary_renames, 10, 80),
              ("magic", f.path_magic, 3, 10), ("absolute", f.absolute, 10, 80), ("excluded", f.excluded_below, 7, 60), ("slash", f.dir_slash, 1, 3),
              ("replaced", f.tree_replaced, 6, 60), ("small", f.small_worlds, 5, 60)], models=[md.small_worlds_model])
check("C15", [("filters", f.filters, 20, 180), ("authors", f.author_combinations, 14, 120),
              ("edges", f.date_edges, 10, 80), ("encodings", f.encodings, 5, 50), ("small", f.small_worlds, 5, 60)], models=[md.small_worlds_model])
check("C16", [("revs", f.revisions, 24, 200), ("args", f.arguments, 14, 100), ("ambiguous", f.ambiguous, 6, 30),
              ("flags", f.flag_forms, 6, 40), ("small", f.small_worlds, 4, 60), ("lines", f.arg_lines, 10, 200)],
      models=[md.small_worlds_model, md.args_model])
check("C17", [("trees", f.trees, 24, 200), ("words", f.own_words, 10, 60), ("shapes", f.tree_shapes, 12, 100), ("replaced", f.tree_replaced, 8, 80), ("excluded", f.excluded_below, 7, 50), ("small", f.small_worlds, 6, 60)], models=[md.small_worlds_model])
check("C18", [("shapes", f.tree_shapes, 18, 200), ("words", f.own_words, 10, 60), ("replaced", f.tree_replaced, 12, 120), ("gone", f.tree_gone, 14, 120), ("trees", f.trees, 10, 100), ("empty", f.tree_empty, 8, 40)])
check("C19", [("hists", f.hists, 14, 100), ("zones", f.shifty_zones, 14, 120), ("spans", f.spans, 12, 80),
              ("recent", f.recent, 6, 40), ("empty", f.hist_empty, 6, 30)])
check("C20", [("bars", f.bars, 18, 120), ("busy", f.busy, 6, 40), ("hists", f.hists, 14, 100), ("small", f.small_worlds, 5, 60)], models=[md.small_worlds_model])
check("C10", [("maps", f.mailmaps, 22, 160), ("moves", f.mailmap_moves, 10, 80), ("cuts", f.mailmap_cuts, 8, 60)])
check("C12", [("ignores", f.ignores, 24, 200), ("small", f.small_worlds, 5, 60)], models=[md.small_worlds_model])
check("C22", [("names", f.wide_names, 14, 100), ("ages", f.ages, 4, 20), ("numbers", f.numbers, 5, 30),
              ("huge", f.huge_numbers, 2, 6), ("thousand", f.many_commits, 1, 4)])
check("C04", [("batches", f.batches, 8, 60), ("resumed", f.batches_resumed, 4, 30),
              ("pars", f.parallelism, 24, 200), ("schedules", f.schedules, 4, 120)],
      models=[md.pipeline_model])
check("C05", [("faults", f.git_faults, 20, 200), ("batches", f.batch_faults, 5, 40),
              ("last", f.last_batch_fails, 8, 80), ("chatter", f.chatter, 8, 60),
              ("schedules", f.schedules, 3, 120)],
      clauses=REJ + FAIL + ["row-*", "col-*"], models=[md.pipeline_model])
check("C06", [("all", f.termination, 24, 250), ("big", f.termination_big, 4, 30), ("fs", f.fs_batches, 3, 20),
              ("schedules", f.schedules, 2, 60)],
      clauses=["hang"], models=[md.pipeline_model])
check("C07", [("life", f.cache_life, 20, 150), ("zones", f.cache_zones, 8, 60), ("big", f.cache_big, 2, 16),
              ("retold", f.retold, 12, 120), ("crash", f.every_crash, 8, 48)], models=[md.cachedisk_model])
check("C08", [("damage", f.damage, 16, 150), ("crash", f.crash_points, 24, 250), ("big", f.crash_big, 2, 16),
              ("refuses", f.fs_refuses, 6, 50), ("every", f.every_crash, 24, 48)],
      models=[md.cachedisk_model])
check("C09", [("fail", f.failed_then_fine, 20, 160), ("batch", f.failed_batch_then_fine, 4, 30),
              ("schedules", f.schedules, 2, 60)])
check("C11", [("disk", f.disk, 14, 120), ("repos", f.neighbours, 16, 140)])
check("C21", [("repeats", f.repeats, 24, 200), ("big", f.repeats_big, 3, 24)], racy=True)
check("C23", [("stories", f.stories, 20, 160), ("views", f.views, 20, 160), ("parts", f.parts, 12, 100), ("small", f.small_worlds, 5, 60)], models=[md.small_worlds_model])
check("C24", [("overlap", f.overlaps, 20, 180), ("maps", f.overlaps_mailmap, 8, 60),
              ("every", f.every_switch, 16, 284)], models=[md.cachedisk_model])
check("C25", [("long", f.terminal, 7, 70), ("short", f.terminal_small, 10, 120)])
check("C26", [("layouts", f.layouts, 20, 200), ("trees", f.worktrees, 8, 80), ("shallow", f.shallow, 8, 80),
              ("unborn", f.unborn, 4, 40), ("sha256", f.sha256, 6, 60)])
check("C27", [("lines", f.arg_lines, 24, 200), ("args", f.arguments, 8, 80), ("flags", f.flag_forms, 10, 80)],
      models=[md.args_model])
check("C28", [("room", f.strained, 16, 160)], models=[md.output_model])
