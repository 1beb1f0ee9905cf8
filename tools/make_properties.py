'''Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it).'''
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF, UTIL, PARS, DATA, INIT = (f"src/bibleref/{x}.py" for x in ("ref", "util", "parser", "data", "__init__"))
CFG = ("every configuration (default Bible; reordered, truncated and miniature Bibles with other chapters, verse counts "
       "and verse 0s), every setting of the two global flags and every explicit flags argument")
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or ["public API return values and exceptions"]))


prop("C01", "Exactly the verses of the configured Bible exist",
     "A verse can be constructed exactly when its book, chapter and verse number exist in the Bible in force (verse 0 "
     "only where the data lists it and verse 0s are switched on), and otherwise the constructor raises the invalid-"
     "reference error, or a ValueError for arguments of the wrong number or type. Every query of a book or verse (chapter "
     "and verse counts, minimum and maximum numbers, first and last verse, next and previous book, the ranges of its "
     "chapter, book or the whole Bible, first/last tests) agrees with that set of verses. With the default data the set is "
     "the standard Protestant canon: 66 books, 1189 chapters, 31102 verses, plus the 116 Psalm superscriptions as verse 0.",
     ["inputs", "configurations"], "for all book/chapter/verse numbers inside and outside the bounds and " + CFG,
     "The tests construct a few dozen verses of the default Bible; an off-by-one for one chapter, one flag or one other "
     "versification passes them.",
     [REF, DATA], [("BibleVerse.__init__", REF), ("BibleBook queries", REF), ("default_max_verses/default_verse_0s", DATA)],
     "differential runtime monitor against an enumerated verse sequence",
     "Every verse of every default book (in and just outside its bounds) is constructed under 5 flag combinations; other "
     "configurations are sampled. Trusts the frozen copy of the canon in mon/canon.json.")
prop("C02", "Canonical order and verse arithmetic",
     "Books, verses and ranges are totally ordered by the book order in force, then chapter, then verse (a range by its "
     "start, then its end), whatever their names. Adding or subtracting n verses moves exactly n places along that order "
     "(stepping over verse 0s unless they are switched on or started from), gives nothing when it would leave the book, "
     "or the Bible if multi-book ranges are allowed, and is undone by the opposite step. The difference of two verses is "
     "the signed number of such steps between them.",
     ["inputs", "configurations"], "for all verses, all n >= 0, and " + CFG,
     "Tests add and subtract at a handful of places; boundary arithmetic has a case per chapter, book, flag and data.",
     [REF], [("BibleVerse.add/subtract", REF), ("dataclass order, BibleBook.__lt__ etc.", REF)],
     "differential runtime monitor of arithmetic and comparisons against positions in an enumerated sequence",
     "Sampled, weighted to chapter/book/Bible boundaries and verse 0. Does not claim negative n nor differences across "
     "books without the multi-book flag.")
prop("C03", "Range construction: omitted parts, swapped ends, refused spans",
     "A range built from two verses, or from a book with optional chapter, verse and end parts, covers exactly what its "
     "arguments say: an omitted verse means the first or last verse of the chapter, an omitted chapter the whole book, an "
     "omitted end the whole of what the start names, and ends given in reverse are swapped so that start never follows "
     "end. Any part that does not exist raises the invalid-reference error, a span of two books raises the multi-book "
     "error exactly when multi-book ranges are not allowed, and a wrong number of arguments raises ValueError.",
     ["inputs", "configurations"], "for all combinations of present, omitted, reversed and out-of-bounds arguments and " + CFG,
     "There are 2^5 omission patterns times bounds, flags and order; the tests reach about ten.",
     [REF], [("BibleRange.__init__", REF)],
     "differential runtime monitor against a specification of the constructor",
     "Sampled; non-integer chapter numbers are not claimed.")
prop("C04", "Iteration, counts and extent queries agree with the verses of a range",
     "Iterating over a range yields each of its verses exactly once, in order, from its start to its end, with verse 0s "
     "exactly when they are switched on (or are the endpoint itself). Its verse, chapter and book counts (also of whole "
     "chapters and books only), its single-verse, whole-chapter and whole-book and spanning tests, and the enclosing "
     "chapter and book ranges all agree with that enumeration.",
     ["inputs", "configurations"], "for all ranges (one verse to the whole Bible) and " + CFG,
     "Tests count a few ranges of the default Bible without flags.",
     [REF], [("BibleRange.__iter__, verse_count, chap_count, book_count, is_whole_*, spans_*, chap_range, book_range", REF)],
     "differential runtime monitor: every measure against an explicit enumeration", "Sampled; the whole Bible is iterated "
     "in three configurations under two flag settings on every run.")
prop("C05", "Splitting a range partitions it",
     "Splitting a range by book, by chapter, by a number of verses or any combination yields pieces that follow each other "
     "without gap or overlap from the start to the end of the range, never cross a boundary that was asked for, and are as "
     "long as those limits allow (so only the last piece between boundaries may be short). The pieces form one list, "
     "grouped as regrouping would when asked and in a single group otherwise. A number of verses below one raises ValueError.",
     ["inputs", "configurations"], "for all ranges, all combinations of limits and " + CFG,
     "Tests split two or three ranges; interactions of limits with book/chapter ends and verse 0 are not sampled.",
     [REF], [("BibleRange.split, BibleBook.chap_ranges", REF)],
     "differential runtime monitor: pieces against a walk over the verse sequence", "Sampled.")
prop("C06", "Containment, surrounding, disjointness and adjacency of ranges are exact",
     "Whether a range contains, surrounds, is disjoint from or is adjacent to a verse, range or list is exactly what the "
     "sets of verses say, for method and `in` forms alike. Adjacency means that one begins at the very verse after the "
     "other ends, across a chapter end always, and across a book end only when multi-book ranges are allowed.",
     ["inputs", "configurations"], "for all pairs of a range and a verse/range/list and " + CFG,
     "Relations have a case per relative position, boundary kind and operand type; tests sample some.",
     [REF], [("BibleRange.contains/surrounds/is_disjoint/is_adjacent", REF)],
     "differential runtime monitor against explicit verse sets (bit masks)", "Sampled with operands placed at each other's edges.")
prop("C07", "Set algebra of a range is exact and consolidated",
     "Union, intersection, difference and symmetric difference of a range with a verse, range or list, as methods or "
     "operators, contain exactly the verses that set algebra gives. The result is sorted, with disjoint ranges and no two "
     "adjacent ones left unjoined; without the multi-book flag no result range crosses a book end that no operand range "
     "already crossed, and with it adjacent ranges are joined across books too.",
     ["inputs", "configurations"], "for all pairs of operands, the four operations, both forms, and " + CFG,
     "Tests check a few pairs per operation inside Genesis-like books.",
     [REF], [("BibleRange.union/intersection/difference/sym_difference and operators", REF)],
     "differential runtime monitor against explicit verse sets, plus canonical-form checker", "Sampled near operand edges, book edges weighted.")
prop("C08", "Set algebra of range lists is exact and consolidated",
     "Union, intersection, difference and symmetric difference of a range list (in any order, with overlaps, duplicates "
     "and any groups) with a verse, range or list, as methods or operators, contain exactly the verses that set algebra "
     "gives. The result is sorted, with disjoint ranges and no two adjacent ones left unjoined; without the multi-book "
     "flag no result range crosses a book end that no operand range already crossed. The result is grouped as regrouping it "
     "would.",
     ["inputs", "configurations"], "for all lists and operands, the four operations, both forms, and " + CFG,
     "The two-pointer sweeps over sorted lists have many interleavings of overlaps; tests sample a few.",
     [REF], [("BibleRangeList.union/intersection/difference/sym_difference", REF), ("BibleRangeList.merge", REF)],
     "differential runtime monitor against explicit verse sets, plus canonical-form checker", "Sampled, lists up to 60 ranges.")
prop("C09", "In-place set operations match the out-of-place ones",
     "The in-place set operations (update methods and augmented operators) leave in the same list object exactly what the "
     "corresponding out-of-place operation returns for the same operands and flags, groups included, over any sequence of "
     "such steps and also when the operand is the list itself. Every other name for that list sees the new content, and "
     "the other operand is left unchanged.",
     ["histories", "inputs", "configurations"], "for all lists, sequences of in-place operations, operands and flags",
     "Tests run each in-place operation once on a fresh list.",
     [REF], [("BibleRangeList.*_update, __ior__/__iand__/__isub__/__ixor__", REF)],
     "history monitor: in-place step against out-of-place result and verse-set model", "Histories of 1-4 steps, sampled.")
prop("C10", "Sorting and merging a range list",
     "Sorting a list leaves exactly the same ranges, duplicates included, in canonical order. Merging leaves the same "
     "verses as the fewest sorted, disjoint ranges, joining overlapping and adjacent ranges (adjacent across a book end "
     "only if multi-book ranges are allowed). Both work for lists of any length and leave a consistent list: forwards, "
     "backwards, by index and by group it shows the same items. Both then regroup the list conventionally (sorting only "
     "unless told not to, leaving one group).",
     ["inputs", "configurations"], "for all lists, including thousands of ranges, reversed, nested and chained, and " + CFG,
     "Tests sort and merge lists of about ten ranges.",
     [REF, UTIL], [("BibleRangeList.sort/merge", REF), ("GroupedList.sort and its merge sort", UTIL)],
     "differential runtime monitor against sorted() and verse sets; structural observation in both directions",
     "Sampled; fixed stress cases of up to several thousand ranges on every run.")
prop("C11", "Counts, extents and relations of a range list",
     "The verse, chapter and book counts of a list are the sums over its ranges, and its overall, chapter and book ranges "
     "reach from the earliest start to the latest end of any range in it, in whatever order they are. A list contains a "
     "verse, range or list exactly when all of its verses are covered by the list's ranges together, and is disjoint from "
     "it exactly when none is; asking leaves both operands as they were.",
     ["inputs", "configurations"], "for all lists (unsorted, nested, overlapping), operands, and " + CFG,
     "Tests ask a few sorted, non-nested lists.",
     [REF], [("BibleRangeList.verse_count/chap_count/book_count/range/chap_range/book_range/contains/is_disjoint", REF)],
     "differential runtime monitor against enumeration", "Sampled.")
prop("C12", "Verses and ranges survive conversion to a string and back",
     "The string of any verse or range, with any combination of abbreviation, alternative separator, no-space and forced "
     "start verse options, parses back to the same verse or range under the same flags (multi-book ranges allowed where the "
     "range is one). It does so as every reference type that can hold it.",
     ["inputs", "configurations"], "for all verses and ranges, all option combinations, and " + CFG,
     "About 31,000 verses and half a billion ranges times 16 option sets; tests render a few dozen.",
     [REF, PARS, DATA], [("BibleVerse.str, BibleRange.str", REF), ("grammar and transformer", PARS), ("book name regexes", DATA)],
     "round-trip runtime monitor", "Sampled; every book with every option set on every run.")
prop("C13", "Range lists survive conversion to a string and back",
     "The string of any non-empty list, with any combination of options, parses back to the same ranges in the same order "
     "under the same flags. With groups preserved it also parses back to the same groups.",
     ["inputs", "configurations"], "for all lists and groups, all option combinations, and " + CFG,
     "What a list string may omit depends on the previous item; tests check some lists of well-behaved items.",
     [REF, PARS], [("BibleRangeList.str", REF), ("grammar and transformer", PARS)],
     "round-trip runtime monitor", "Sampled, lists up to about a dozen items.")
prop("C14", "Reference strings mean what the documented syntax says",
     "Parsing a reference string gives exactly the ranges and groups that its text means: books, chapters and levels "
     "omitted are implied by the preceding reference, major separators start groups and minor ones continue them, numbers "
     "after a single-chapter book are verses, and reversed ends are swapped. A string that names something that does not "
     "exist, or a multi-book range while those are not allowed, raises the parsing error with the span of the offending part.",
     ["inputs", "configurations"], "for all syntax trees, spellings and spacings, and " + CFG,
     "The meaning of an item depends on all items before it; tests parse a few dozen strings.",
     [PARS, REF], [("_BibleRefTransformer callbacks", PARS), ("grammar", PARS)],
     "differential runtime monitor against an independent interpreter of the syntax tree", "Sampled; up to about 8 references per string.")
prop("C15", "Any string either parses or raises the parsing error",
     "For every string whatever, constructing a list from it either succeeds, exactly when the string is in the reference "
     "language, or raises the parsing error; no other exception, crash or hang. The error's start and end positions lie in the "
     "string and delimit the leftmost reference at fault, or, if the string is not a reference string, begin at or in the "
     "word of the first character that cannot be there. Constructing a verse or range from a string behaves likewise, rejecting strings that denote more than one verse "
     "or range with one of the documented exceptions.",
     ["inputs"], "for all strings: mutated references, random text, Unicode, control characters, huge numbers",
     "Tests feed about a dozen bad strings.",
     [PARS, REF], [("_parse error translation", PARS), ("string constructors", REF)],
     "fuzzing under an exception/position monitor and an independent recogniser", "Sampled strings, up to a few thousand characters.")
prop("C16", "Parsing has no memory and is safe in threads",
     "What a string parses to depends only on the string, the flags and the configuration, never on which strings were "
     "parsed before, on whether those failed part-way, or on what other threads are parsing or printing at the same time.",
     ["histories", "schedules"], "for all sequences of parses, including failing ones, and all thread interleavings",
     "Tests parse one string at a time, in one thread.",
     [PARS, REF], [("_parse creating transformer state per call", PARS)],
     "history monitor plus seeded line-level thread scheduler and free-running stress",
     "Interleavings are sampled: seeded switch points at line granularity, and 1 us switch interval stress.")
prop("C17", "A grouped list behaves as a list under any history",
     "After any sequence of operations, a grouped list or range list has the same length, items and order, forwards, "
     "backwards, by positive or negative index, as a Python list given the same operations, and returns and raises the "
     "same (IndexError, ValueError) from indexing, assignment, deletion, insertion, removal, search, counting and extension, "
     "a list's own content included. Equality is that of the items, with or without groups as asked, and values of a wrong "
     "type are refused by range lists without changing them.",
     ["histories", "inputs"], "for all sequences of list operations with in- and out-of-range arguments",
     "A doubly linked list with group links has pointer cases per position; tests run short fixed sequences.",
     [UTIL, REF], [("GroupedList operations", UTIL), ("BibleRangeList type check", REF)],
     "model-based history monitor against a Python list", "Sampled histories; clamping by insert and odd index() bounds are not claimed.")
prop("C18", "Groups partition the list and group views never lie",
     "At all times the groups of a list are non-empty and, in order, make up exactly its items, and each operation changes "
     "the groups as documented (items join the group where they are inserted, a group disappears with its last item). A "
     "group view obtained at any time either shows exactly one current group, to which writes and deletions through it "
     "apply, or raises the group view error; it stays usable as long as the item that was first in its group still is.",
     ["histories"], "for all sequences of list, group and view operations and all views obtained on the way",
     "Stale views need a view, then a change, then a use of the view; tests have a handful of such triples.",
     [UTIL], [("GroupedList._Node group links, GroupViews, GroupView", UTIL)],
     "model-based history monitor re-using every view ever obtained", "Sampled histories.")
prop("C19", "An explicit flags argument equals setting the global flags",
     "Calling any operation with an explicit flags value gives exactly the result or exception it gives without that "
     "argument while the global flags have that value, whatever the global flags are; in particular an explicit 'none' "
     "overrides global flags. No operation, successful or failing, changes the global flags.",
     ["inputs", "configurations"], "for all operations that accept flags, operands, global and explicit flag values",
     "Tests set either global or explicit flags, never disagreeing ones.",
     [REF, PARS, INIT], [("_resolve_flags and flags passed through every call", REF)],
     "metamorphic runtime monitor: explicit vs global flags", "Every flag-taking operation at least 100 times per run with disagreeing flags.")
prop("C20", "Configuration changes take effect everywhere and can be undone",
     "Setting the separators, book order, book names, versification or verse 0s takes effect at once in constructing, "
     "ordering, counting, writing and parsing references, including objects made before, and reads back "
     "as set; former separators and names are no longer recognised. Settings can be changed in any order and combination, and putting the defaults back restores the "
     "default behaviour entirely.",
     ["histories", "configurations"], "for all sequences of configuration changes, with probes after each",
     "Tests change one or two settings once.",
     [DATA, PARS, REF], [("BibleData property setters", DATA), ("_recreate_parser", PARS)],
     "configuration-history monitor with a model of the configuration in force",
     "Sampled; separators are single punctuation characters other than _ \" and \\, names follow the documented data format.")
prop("C21", "References are values and operations have no side effects",
     "Verses and ranges are immutable; equality, hash and copies (constructor, copy, pickle) depend only on what they "
     "refer to, however they were made and in whatever process. Lists copied by constructor, copy or pickle, of any "
     "length, have the same ranges and groups and are independent of the original. No operation other than the documented in-place ones changes its operands, the "
     "flags or the configuration, and changing a returned list afterwards never shows in an operand, nor the reverse. A list with a past behaves as a new one of the same content.",
     ["inputs", "histories"], "for all values and for every public operation on all operands",
     "Tests look at results, rarely at operands afterwards.",
     [REF, UTIL], [("frozen dataclasses", REF), ("list copies in set operations", REF)],
     "before/after observation monitor around every public operation, with mutation of results and operands",
     "Sampled; four exchanges of pickled references with other processes.")
prop("C22", "Book names are recognised exactly as the name data says",
     "A string names a book exactly when, ignoring case and surrounding white space and with any or no white space where "
     "the name has a space, it is one of the book's extra abbreviations or a beginning of its full title of at least the "
     "required length, a leading number 1-3 being written as a digit or as a Roman numeral followed by white space. Then it "
     "is that book and no other; everything else is rejected, alike by every constructor that takes a book name.",
     ["inputs"], "for all strings, including all prefixes, spacings, cases and near misses of all names",
     "Tests look up one or two spellings per book.",
     [DATA, REF], [("BibleData._set_regexes", DATA), ("BibleBook.from_str", REF)],
     "differential runtime monitor against a character-level reading of the name data", "All prefixes of all names and all "
     "strings of up to three letters on every run, others sampled; characters with unusual Unicode case mapping not claimed.")
prop("C23", "Converting between verse 0 and verse 1",
     "Converting verse 0s to 1s replaces exactly the endpoints that are verse 0 by verse 1 of the same chapter, and "
     "converting 1s to 0s replaces exactly the endpoints that are verse 1 of a chapter that has a verse 0, whatever the "
     "flags. Everything else stays, verses and ranges are returned anew, and lists are changed in place with their order "
     "and groups.",
     ["inputs", "configurations"], "for all verses, ranges and lists, verse 0 data and global flags",
     "Tests convert three or four references.",
     [REF], [("verse_0_to_1, verse_1_to_0 of verse, range and list", REF)],
     "differential runtime monitor", "Sampled near chapters with a verse 0.")
prop("C24", "References are written in the documented form",
     "The text of a verse, range or list consists of the parts the documentation prescribes: book title or abbreviation, "
     "chapter and verse with the chosen separator and spacing, whole chapters and books (and chapters of single-chapter "
     "books) abbreviated, start verses forced when asked, and in lists nothing repeated that the preceding item implies, "
     "with the major or minor separator that its groups (or convention, when groups are not preserved) require. The str() "
     "and repr() forms are those of the default options.",
     ["inputs", "configurations"], "for all verses, ranges and lists, all option combinations, and " + CFG,
     "Rendering has a case per range shape, previous item and option; tests render a few dozen.",
     [REF], [("BibleVerse.str, BibleRange.str, BibleRangeList.str", REF)],
     "differential runtime monitor against an independent renderer", "Sampled.")
prop("C25", "Regrouping follows the conventional notation",
     "Regrouping a list keeps its ranges and their order and makes a new group exactly where the list's string in "
     "conventional notation has a major separator. It depends on the ranges and flags only, not on the previous groups, and "
     "doing it twice changes nothing more.",
     ["inputs", "configurations"], "for all lists and previous groups and " + CFG,
     "Tests regroup a few lists.",
     [REF], [("BibleRangeList.regroup", REF)],
     "differential runtime monitor", "Sampled.")
prop("C26", "Lists are built from any documented source and taken apart unchanged",
     "A range list built from ranges given as a list, tuple, generator, iterator or several arguments holds exactly those "
     "ranges in that order in one group; built from nested lists or another range list it keeps the groups (empty ones are "
     "dropped), and built from a group view it has that group. Ranges over several books are taken as they are whatever the "
     "flags. Anything else among the ranges raises TypeError. Converting to nested lists gives the groups as plain lists "
     "that are independent of the list, and no source is changed.",
     ["inputs", "configurations"], "for all lists of ranges, groupings and kinds of source, and " + CFG,
     "Tests build lists of two or three ranges from one or two kinds of source.",
     [REF, UTIL], [("BibleRangeList.__init__, to_nested_lists", REF), ("GroupedList, GroupViews", UTIL)],
     "differential runtime monitor of construction and views against plain nested lists", "Sampled; lists of 1300 ranges fixed.")
prop("C27", "Wrong arguments are refused and leave everything as it was",
     "Every set operation and relation of a range or non-empty list, as method, operator or in place, raises ValueError or "
     "TypeError when given something that is not a reference; verse arithmetic raises TypeError for what is not a number or "
     "verse, constructors raise ValueError for arguments of the wrong number or type, and lists raise TypeError for items "
     "that are not ranges. Books, verses, ranges and lists never equal something of another kind, and ordering them against "
     "it raises TypeError. Books, chapters and verses that do not exist raise the invalid-reference error (in strings the "
     "parsing error), which like all errors of the package is a BibleRefException. Indices beyond the ends "
     "raise IndexError. No refused operation changes its receiver, the flags or the configuration, except that a list "
     "being extended may keep the items before the refused one, as Python's own sequences do.",
     ["inputs", "configurations"], "for all receivers, a dozen kinds of wrong arguments and " + CFG,
     "Tests try a few wrong arguments on a few methods, and never look at the receiver afterwards.",
     [REF, UTIL], [("type checks of BibleVerse, BibleRange and BibleRangeList methods", REF), ("_check_type", UTIL)],
     "runtime monitor of exceptions and of the observable state around refused calls",
     "Sampled receivers. Does not claim is_disjoint/contains of an empty list, nor iterables of ranges given as operand.")
prop("C28", "Iterators and concurrent readers do not disturb each other",
     "Iterators over a range, a list in either direction, its groups or a group view are independent of each other: "
     "nested, stepped in turn or abandoned part-way, each yields all of its items in order. Any number of threads may "
     "iterate, index, compare, copy, query, write and compute with the same verses, ranges and lists at the same time; "
     "each gets what it would get alone, and the shared references are unchanged afterwards.",
     ["inputs", "schedules", "configurations"],
     "for all lists and ranges, iterators in any order of steps, sets of reading operations, thread schedules and " + CFG,
     "Tests read every object from one thread and with one iterator at a time.",
     [REF, UTIL], [("BibleRange.__iter__ and queries", REF), ("GroupedList iteration, indexing and views", UTIL)],
     "runtime monitor under a seeded line-level thread scheduler and free-running stress; differential against the same call alone",
     "Sampled schedules of two to four threads; switches at lines of the package, not within a bytecode.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "./check.sh --selftest",
       "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
                   "thorough_cmd": f"./check.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
       "not_applicable": [],
       "notes": "No hooks in /repo: the monitors observe the public API only, importing /repo/src directly."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
