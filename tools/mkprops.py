"""writes properties.jsonl and MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/aligned_textgrid/"
SQ, TI, MX, TM, WI, PO, PT, AT, SL = (S + "sequences/sequences.py", S + "sequences/tiers.py", S + "mixins/mixins.py", S + "mixins/tiermixins.py",
    S + "mixins/within.py", S + "points/points.py", S + "points/tiers.py", S + "aligned_textgrid.py", S + "sequence_list.py")
CC, DF, WP, PG, PC = S + "custom_classes.py", S + "outputs/to_dataframe.py", S + "sequences/word_and_phone.py", S + "polar/polar_grid.py", S + "polar/polar_classes.py"
H = "histories"; I = "inputs"; P = "programs"; C = "configurations"
P_ = []
def p(id, title, st, over, qt, why, files, mech):
    P_.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=x, where=w) for w, x in mech])))
ANYH = "every sequence of public operations on intervals, points, tiers, tier groups and TextGrids, for every number and placement of intervals and every class hierarchy"

p("C01", "Tiers and subset lists are always in time order",
  "Whatever was appended, fused, shifted, concatenated, related or cleaned up before, the entries of every tier and of every interval's subset are in order of their start times, and no interval starts after it ends. A tier built from intervals or points in any order holds exactly these, sorted.",
  [H, I], ANYH, "The tests append a handful of intervals to small fixed tiers; order after an arbitrary history of edits, with empty tiers, negative or zero start times, is not sampled.",
  [SL, TI, SQ, MX], [(SL, "sorts on construction, append and concatenation"), (TI, "setting the sequence list of a tier"), (MX, "appending to and replacing subset lists")])
p("C02", "Previous and following links always mirror the sequence",
  "After any history, the previous (following) entry of an interval or point is exactly the one before (after) it in its superset's subset, or in its tier when it has no superset, and the first (last) has a boundary interval there. Nothing that was fused away, popped or replaced is reachable through these links.",
  [H, I], ANYH, "Tests check the links after single operations on two or three intervals; the property is about every interval of every tier after every history.",
  [MX, TI, SQ, PT], [(MX, "set_fol/set_prev, the precedence of subset lists"), (TI, "precedence of a tier"), (SQ, "fusing relinks neighbours")])
p("C03", "Hierarchy links agree in both directions",
  "After any history, an interval is in the subset of another if and only if that one is its superset, it is there once, and both are in adjacent tiers of the same group when they are in tiers; each entry is in at most one tier. What an object says it is within (interval, tier, group or TextGrid) contains it, at every level.",
  [H, I], ANYH, "Two-sided consistency of a whole object graph after arbitrary edits is not something the example-based tests look at; they check one link at a time.",
  [MX, SQ, TI, WI, AT], [(SQ, "set_super_instance, append to subset"), (TI, "relating tiers"), (WI, "within and contains")])
p("C04", "Indices, paths and ids address what they belong to",
  "After any history, the tier index, the index within the container, the path and the id of every interval, point, tier and group are the positions it really has, and following a path from the outermost container leads back to the object. Looking relative to an interval in its tier gives the entry that many places away, and nothing beyond the ends of the tier.",
  [H, I], ANYH, "Tests compare a few indices in one recording; that they follow every edit for every object needs all histories.",
  [WI, MX, TI, AT], [(WI, "within_index, within_path, id"), (MX, "tier_index, get_tierwise")])
p("C05", "Relating tiers assigns each interval to its best superset",
  "When tiers are made into a group, or related again, each interval becomes part of the interval of the tier above that it overlaps most, and of none if it overlaps none; superset intervals without any interval below get one with an empty label. Labels are kept, and intervals whose boundaries fit keep their times.",
  [I, H, C], "every pair or stack of tiers with disjoint intervals, including gaps, empty tiers, tiers that do not overlap and boundaries that do not match, in 2 to 4 level hierarchies; and any history before relating again",
  "Tests relate a few aligned recordings; gaps, orphans and empty tiers in all combinations are not reached.",
  [TI, SQ], [(TI, "TierGroup construction: overlaps, closing gaps, trimming"), (SQ, "cleanup of a single interval")])
p("C06", "Cleaning up completes the tiers and changes nothing else",
  "Cleaning up a tier, a group, a TextGrid or an interval keeps every existing entry with its label, adds only intervals with empty labels, and leaves no gaps: after it, where boundaries fit, the tiers of a group cover the same span and each interval is covered by its subset without moving any existing boundary. Cleaning up again changes nothing.",
  [I, H, C], "every arrangement of gaps in every tier, groups of different length within a TextGrid, hierarchies of 1 to 4 levels",
  "Tests clean up two or three arrangements; completeness and idempotence are statements about all of them.",
  [TI, SQ, AT], [(TI, "cleanup of tiers and groups, projecting up"), (SQ, "interval cleanup"), (AT, "cleanup pads the groups")])
p("C07", "Fusing joins exactly two neighbours",
  "Fusing an interval with its right or left neighbour (in its subset, else in its tier) leaves one interval spanning both, with both labels joined in time order and both subsets merged; the neighbour disappears from every tier and link and every other interval stays as it was. There being no neighbour, nothing changes.",
  [H, I], "every interval of every tier, both directions, repeated, on complete and incomplete groups and outside tiers",
  "Tests fuse once or twice in a fixed recording; repeated fusing at the edges of supersets and tiers, with and without subsets, is not reached.",
  [SQ, MX, TI], [(SQ, "fuse_rightward, fuse_leftward"), (TI, "pop")])
p("C08", "Appending puts things where they belong, with all that hangs on them",
  "Appending an interval or point to a tier, an interval to another, a tier to a group or a group to a TextGrid adds it at its place in time, brings its subset and superset intervals into the adjacent tiers, relates the tiers unless told not to, and keeps everything that was there. What does not fit the classes is refused.",
  [H, I, C], "every tree of intervals appended at every level of every group and TextGrid state",
  "Tests append a few well-formed trees to one group; every level, class and state is not sampled.",
  [TM, SQ, MX, AT, PT], [(TM, "append of tiers and groups"), (SQ, "append to an interval"), (AT, "append of groups")])
p("C09", "Shifting moves all times by the same amount and nothing else",
  "Shifting a group or a TextGrid adds the increment to all times of all of its intervals and points, and changes no label, order, class, name or link. Shifting back restores it.",
  [H, I], "every group and TextGrid, every increment, after any history",
  "Tests shift one recording; points, empty tiers, several groups and states after other edits are not covered.",
  [TI, PT, AT, MX], [(TI, "shift of groups and tiers"), (PT, "shift of point tiers and groups"), (AT, "shift of a TextGrid")])
p("C10", "Concatenating and adding lose and invent nothing",
  "Concatenating a tier or group onto another moves every entry of the second by the end of the first and puts it after what was there; adding two tiers or groups merges their entries in time order. Durations, labels and superset relations are kept, and mismatching classes are refused.",
  [I, H], "all pairs of tiers, point tiers, groups and points groups, including empty ones and incomplete groups",
  "Tests join two or three complete examples; orphans, gaps and empty tiers on either side are not reached.",
  [TM, SL, PT], [(TM, "concat and + of tiers and groups"), (SL, "concat of lists")])
p("C11", "Saving and returning TextGrids loses nothing",
  "A returned or saved TextGrid has one tier for each tier, with its name made unique, and exactly its entries; reading the saved file again with the same classes gives the same groups, labels, times and relations. This holds after any editing and for each file format.",
  [H, I, C], "every TextGrid with non-negative times that was read, built or edited, in every file format",
  "Tests save one recording and look at the number of tiers; a round trip of edited TextGrids is not compared.",
  [AT, TI, PT], [(AT, "return_textgrid, save_textgrid"), (TI, "return_tier, save_as_tg")])
p("C12", "Interleaving and popping classes are inverse and keep the rest",
  "Interleaving a class adds one tier at the requested place in every group that has the reference class, with the times (and labels, if asked) of the tier above or below, relates it to both neighbours and leaves all other tiers, times and labels as they were. Popping a class removes its tiers and joins its neighbours again, so that popping what was interleaved restores the TextGrid.",
  [H, I, C], "every TextGrid with any number of groups and partial hierarchies, every place, every order of interleaving and popping",
  "Tests interleave and pop once in one recording with complete groups; several groups with different tiers, and sequences of both, are not covered.",
  [AT, TI], [(AT, "interleave_class, pop_class, reconstructing classes")])
p("C13", "Class hierarchies stay mutual, and each TextGrid's are its own",
  "After any history, entries have the class of their tier, superset and subset classes of adjacent tiers point at each other, and tiers report the same hierarchy as their entries. Reading or building a TextGrid, interleaving and popping never change the user's classes nor those of another TextGrid.",
  [H, C], "every set of class hierarchies, several TextGrids alive at once, any history",
  "Class state is global; tests use one TextGrid at a time and cannot see interference between two.",
  [AT, SQ, CC, MX], [(AT, "cloning of classes"), (SQ, "set_superset_class, set_subset_class"), (MX, "changing the class of entries")])
p("C14", "Reading gives every tier to its class, completed and related",
  "Reading a TextGrid with nested or flat class lists makes the groups the lists describe, with each tier's entries and name, points in groups of their own, and related and cleaned-up interval tiers. Flat lists repeat over speakers, or split at top classes.",
  [I, C], "every TextGrid object or file with interval and point tiers, every nested or flat list of classes that fits",
  "Tests read a dozen files; the combinations of number of tiers, class lists, gaps and empty tiers are not covered.",
  [AT, TI, WP], [(AT, "process_entry_classes / extension, nesting, initialisation from textgrids")])
p("C15", "Looking up by time or by indices finds what is there",
  "The interval of a tier at a time is the one that starts at or before the time and ends after it, and there is none in a gap or outside; groups and TextGrids answer for each tier. Indexing with one index per tier returns those entries, and a wrong number of or too large indices is refused.",
  [I, H], "every time, including boundaries, on every group and TextGrid", "Tests ask for a few times inside intervals; boundaries, gaps, and empty tiers are not covered.",
  [TI, AT, PT], [(TI, "get_interval_at_time, get_intervals_at_time"), (AT, "get_intervals_at_time, indexing"), (WI, "indexing with lists")])
p("C16", "Points: nearest lookup, distances and intervals at points",
  "The nearest point to a time is one no other point of the tier is closer than; distances to neighbouring points and to other points or intervals are the differences of their times, and undefined without a neighbour. The interval at a point is the one containing its time, or none.",
  [I, H], "every set of points and intervals, and every time, after any history of appending, adding and shifting",
  "Tests use one or two points with positive times; ties, times at 0, ends of tiers are not covered.",
  [PO, PT], [(PO, "fol_distance, prev_distance, distance_from, get_interval_at_point"), (PT, "get_nearest_point_index, get_nearest_points_index")])
p("C17", "Data frames hold exactly the intervals and points there are",
  "The data frame of an interval, tier, group or TextGrid has one row for each entry (for each lowest interval, with its supersets' columns, when subsets are included), in order, with its label, times, id, tier index, class and group name.",
  [H, I, C], "every object, with and without subsets, after any history, with hierarchies of any depth and points",
  "Tests check the shape of frames of one recording, not the contents for arbitrary groups.",
  [DF], [(DF, "to_df for every kind of object")])
p("C18", "Summaries of containers agree with their contents",
  "The length, labels, start and end times, first, last, extent and duration that intervals, tiers, groups and TextGrids report are always those of their current entries, in order; empty tiers do not disturb those of the group. Entries never appear twice, and these stay readable after any operation.",
  [H, I], ANYH, "Tests compare summaries right after construction; that none goes stale after any edit needs histories.",
  [SL, TI, PT, MX, AT], [(SL, "starts, ends, labels"), (TI, "xmin, xmax, starts, ends"), (AT, "xmin, xmax")])
p("C19", "What is refused changes nothing",
  "An operation that is refused because a class, kind, number or name does not fit leaves every interval, tier, group and TextGrid exactly as it was, links and class hierarchies included.",
  [H, I], "every refused call at every state", "Tests check that an exception is raised, not that nothing else happened.",
  [SQ, MX, TM, AT, TI], [(SQ, "class checks before linking"), (TM, "class checks of append, concat and +"), (AT, "checks of interleave_class and pop_class")])
p("C20", "Re-parenting moves an interval completely",
  "Setting an interval's superset, appending it to another's subset, replacing a subset list, adding with + and removing a superset move the interval from its old place to the new one: the old superset no longer contains it, replaced intervals are let go, and the others stay.",
  [H, I], "every forest of intervals outside tiers and every sequence of such operations on it",
  "Tests set one superset once; moving between supersets, replacing lists and repeating are not covered.",
  [SQ, MX], [(SQ, "set_super_instance, remove_superset, append, +"), (MX, "subset_list setter, set_subset_list, pop")])
p("C21", "Names and named accessors lead to the right tier or group",
  "A group gives each tier by its class name, and a TextGrid each group by its name, also after appending, interleaving, popping, reading and unpickling; tier names and class lists report the current tiers in order. Renaming a tier or group changes that name only.",
  [H, I, C], "every TextGrid with unique names after any history", "Tests read one accessor on a fresh TextGrid.",
  [AT, TM, TI], [(AT, "group names and accessors"), (TM, "tier names and accessors, make_name")])
p("C23", "Pickled copies are equal and independent",
  "A TextGrid, group or tier pickled and loaded has the same tiers, entries, links, names and class hierarchy, shares no entry with the original, and supports every operation afterwards as the original does.",
  [H], "every object after every history, and every continuation on the copy", "The tests pickle one recording and compare a few attributes.",
  [AT, TI, PT, SQ, SL], [(AT, "getstate/setstate"), (TI, "setstate"), (SQ, "reduction of interval classes")])
p("C24", "Validation and containment tell the truth",
  "Validating an interval says yes exactly when its subset, if any, covers it without gap or overlap from its start to its end; asking whether an interval contains another, and at what index, says so exactly when it is in its subset.",
  [I, H], "every interval and subset, complete or not, after any history", "Tests validate a handful of good and bad lists.",
  [SQ, MX, SL], [(SQ, "validate"), (MX, "contains, index")])

EXTRA = os.path.join(ROOT, "tools", "extra_props.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
P_.sort(key=lambda x: x["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P_:
        f.write(json.dumps(x) + "\n")
TECH = {}
LEVEL = {}
man = dict(version=1, setup_cmd="bash setup.sh",
  checks=[dict(property=x["id"], quick_cmd="./check.sh %s quick" % x["id"], thorough_cmd="./check.sh %s thorough" % x["id"],
     technique=TECH.get(x["id"], "TLA+ specification checked with TLC; its histories and random longer ones are run on the real code and every step is judged by the specification (trace validation)"),
     level=LEVEL.get(x["id"], "model_checking"),
     level_note="bounded: all histories of small families, sampled longer histories; see DESIGN.md",
     evidence_file="evidence/%s.json" % x["id"]) for x in P_],
  not_applicable=[])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
