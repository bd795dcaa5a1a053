"""The properties, their checks, and the fixed/known findings.
`python3 tools/gen.py` writes properties.jsonl, MANIFEST.json and
known_findings.json from this file."""

TECH = ("bounded exhaustive model checking of the implementation: every %s within the bounds is executed on the real "
        "code in lock-step with a reference model")

SPEC = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, **kw):
    SPEC.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                     files=files, mech=mech, tech=tech, note=note, **kw))


prop("P01", "Row arithmetic is permutation arithmetic, on any number of bells",
     "For any rows, on equal or different numbers of bells, multiplication, division, inversion, powers, order, sign, cycles, "
     "conjugators, equality, ordering, application to a change or to another sequence (in place, copied or as the rows of a "
     "block), and the standard rows (rounds, backrounds, queens, reverse rounds, kings, tittums, cyclic, plain bob) are those of "
     "the permutations the rows denote, a short row standing for one with its missing bells in their own places. "
     "Any sequence of these operations on one row keeps it a permutation equal to the one the operations denote; a row is never "
     "left with bells missing or repeated.",
     ["inputs", "histories"],
     "all rows and all pairs of rows on up to 5 bells (6 at depth), every change applied to every row, structured rows up to 256 "
     "bells, every sequence of row operations up to the depth bound",
     "Tests multiply a few dozen chosen rows; the laws quantify over all pairs, mixed sizes and operation orders, which nobody "
     "lists by hand.",
     ["ringing/row.h", "ringing/row.cpp", "ringing/bell.h"],
     [("row multiplication, division, inverse and powers", "ringing/row.cpp"),
      ("row_block and permute iterators", "ringing/row.h")],
     "row, pair of rows and operation history",
     "Complete on the stated sizes; larger rows are covered by structured families only. Trusts the independent permutation "
     "arithmetic in src/ref.h, gcc and AddressSanitizer.")

prop("P02", "Bells and rows written out read back, and nothing else is accepted",
     "Every bell and row written as text reads back as itself, from a string and from a stream, in the default symbols and in any "
     "other valid symbol set, including bells beyond the symbols. Text that does not spell each bell of a row exactly once is "
     "refused with an error and never accepted as another row, and reading never looks beyond the text it was given.",
     ["inputs", "configurations"],
     "all bells in 0..300, all strings over a representative alphabet up to the length bound, all rows on up to 6 bells, every "
     "choice among several symbol sets",
     "Tests read a few good and bad strings; the property quantifies over all strings and symbol sets.",
     ["ringing/bell.h", "ringing/bell.cpp", "ringing/row.cpp"],
     [("bell::read_char, read_extended and printing", "ringing/bell.cpp"),
      ("row::validate and the stream operators", "ringing/row.cpp")],
     "string up to the length bound and every bell and row",
     "Complete for the listed alphabets and lengths. Trusts an independent reader in the harness.")

prop("P03", "A change does what its places say, however it is built or edited",
     "A change built from text, from a list of places or by swapping and unswapping pairs one at a time is exactly the set of "
     "adjacent swaps which that text, list or history denotes, and its places, sign, printed form, reversal, comparison and internal-"
     "place queries all follow from that set. A change has no swap outside its bells nor two overlapping swaps, whatever was done "
     "to it, and text or places that denote no change are refused with an error.",
     ["inputs", "histories"],
     "all changes on up to 9 bells, all strings over the notation alphabet, all place lists, and all edit histories up to the "
     "depth bound",
     "Tests build a handful of changes; edit histories and refused text are unbounded in number.",
     ["ringing/change.h", "ringing/change.cpp"],
     [("change::init, swappair, findswap, findplace, internal, print", "ringing/change.cpp")],
     "change, notation string and edit history",
     "Complete within the bounds. Trusts the reference parser in src/refpn.h.")

prop("P04", "Place notation means what it says, and a method's notation reads back",
     "Place notation text, with its crosses, dots, external places left out, symmetrical blocks and separate lead-end, expands to "
     "the one sequence of changes it denotes on its number of bells, and text denoting none is refused with an error without "
     "looking beyond its end. The notation a method is printed as, under every combination of formatting options, denotes the "
     "changes of the method it was printed from.",
     ["inputs", "programs"],
     "all strings over the notation alphabet up to the length bound, all token sequences, and all methods of up to the bounded "
     "number of changes on 1..6 bells under every option, with structured ones up to 64 bells",
     "Tests parse a small table of notations; formatting options and symmetric folding interact over all change sequences.",
     ["ringing/place_notation.h", "ringing/place_notation.cpp", "ringing/method.cpp"],
     [("interpret_pn", "ringing/place_notation.h"), ("method::format", "ringing/method.cpp")],
     "notation text and method",
     "Complete within the bounds; reads through exact-size buffers under AddressSanitizer. Trusts src/refpn.h.")

prop("P05", "What a method is called and said to be follows from its changes",
     "Every attribute reported for a method follows from its sequence of changes alone: length, lead head, leads in the course, "
     "hunt and principal bells, symmetry of the method and of each bell's path, palindromic and double symmetry points, regularity "
     "and lead head code, longest blow, dodging, and class (principle, hunter, differential, little, plain, treble bob, surprise, "
     "delight, treble place, alliance, hybrid, slow course). Its full name joins name, class and stage consistently with that class.",
     ["inputs"],
     "all sequences of changes up to the length bound on 1..6 bells, all palindromes and all methods whose treble follows a given "
     "path, with structured families up to 22 bells",
     "Tests classify a few known methods; the definitions range over all change sequences, including degenerate ones.",
     ["ringing/method.h", "ringing/method.cpp"],
     [("method::methclass, lhcode, issym, isdouble, symmetry_point, hasdodges, maxblows, huntbells, fullname",
       "ringing/method.cpp")],
     "method (sequence of changes)",
     "Complete within the bounds; the attribute definitions are restated independently on bell paths.")

prop("P06", "Enumerations visit every row or change once, in both directions",
     "Iterating over an extent, over the in-course rows, or over all changes on a number of bells visits every one exactly once and "
     "nothing else, going forwards or backwards or turning round at any point, and iterators compare and end consistently with "
     "their positions. A row's position in the extent and the row at a position are inverse, for all sizes whose positions can be "
     "counted, and a row or position that is not in the extent is refused with an error.",
     ["inputs", "histories"],
     "all extents on up to 7 bells with every number of fixed tenors and trebles, all forward/backward walks, all in-course "
     "extents, all change lists, and structured positions on up to 20 bells",
     "Tests compare a few extents; walks that turn round and large ranks are histories and sizes tests do not enumerate.",
     ["ringing/extent.h", "ringing/extent.cpp", "ringing/mathutils.cpp"],
     [("extent_iterator, incourse extent, changes_iterator, nth_row_of_extent, position_in_extent", "ringing/extent.cpp")],
     "extent, walk and rank",
     "Complete for the stated numbers of bells.")

prop("P07", "Groups of rows are exactly their closures, with exact cosets",
     "A group built from generators, from another group, from a name or by conjugation or product contains exactly the rows that "
     "its generators produce, however many bells they are on, and reports its size, bells, invariants, sign and membership "
     "accordingly; equal sets compare equal. The label of a row's left or right coset is the least row in it, so two rows have "
     "the same label exactly when they lie in the same coset.",
     ["inputs"],
     "all groups generated by up to two rows on up to 5 bells (three on 4), all rows and cosets, all conjugates, and pairs of "
     "groups for products",
     "Tests build a few named groups; closure and cosets quantify over all generators and rows.",
     ["ringing/group.h", "ringing/group.cpp"],
     [("group constructor and iterators, rcoset_label, lcoset_label, conjugate, products", "ringing/group.cpp")],
     "generator set, row and coset",
     "Complete within the bounds. Trusts a naive closure in src/ref.h.")

prop("P08", "Arithmetic helpers are exact, and random choices fair",
     "Highest common factor, lowest common multiple, factorial and half-factorial are exact wherever the result can be "
     "represented. A random number lies in the range asked for and each value arises from equally many outcomes of the "
     "underlying generator, and a random row or element of a range can be any of them.",
     ["inputs", "schedules"],
     "all pairs of small numbers and those near the top of the range, and all outcomes of the underlying generator, which is "
     "replaced by an enumerated one",
     "Tests sample; overflow and the generator's rejected tail need specific values.",
     ["ringing/mathutils.h", "ringing/mathutils.cpp", "ringing/row.cpp"],
     [("hcf, lcm, factorial, random_int, random_uniform", "ringing/mathutils.cpp"), ("random_row", "ringing/row.cpp")],
     "argument and generator outcome",
     "Complete within the ranges listed in the evidence.")

prop("P09", "A multiplication table gives the products of the rows it tabulates",
     "For any closed set of rows, with any part-end group factored out on one side and, for sets of course representatives, any "
     "group on the other, the table has one entry per class, standing for its least tabulated row, and looking up any row of a "
     "class finds it. Multiplying an entry by a row or change on either side, whatever other columns were computed before and "
     "after and in whatever copy of the table, gives the entry for the product of the rows; a factor that does not commute with "
     "the group on its side, so that the product would not be well defined, is refused.",
     ["inputs", "histories"],
     "all groups of rows on up to 5 bells by all part-end subgroups, all sets of coset representatives on up to 4 bells by all "
     "groups acting freely on either side, all factors, and all column histories up to the depth bound on 3 bells",
     "No existing test covers the tables; the property ranges over groups on both sides and orders of computation.",
     ["ringing/multtab.h", "ringing/multtab.cpp"],
     [("multtab::init, make_representative, compute_pre_mult, compute_post_mult, find", "ringing/multtab.cpp")],
     "set of rows, group and column history",
     "Complete within the bounds. Products that leave the tabulated set are outside the property. Trusts the closures and "
     "products in the harness.")

prop("P10", "Falseness is exactly the coincidence of rows",
     "The falseness table of one method, of two methods or of two lists of rows holds exactly the lead heads whose leads (or half "
     "leads) share a row with the first, with only those fixing the treble, in course or out of course when so asked, and the "
     "group it generates is the closure of that set. The false course heads of a method are exactly the heads, with treble and "
     "tenor home, of courses sharing a row with its plain course, limited as asked to in-course rows or tenors together; "
     "calculating them always ends. Falseness symbols are the standard names: one symbol for each class of course heads, shared "
     "with the inverse, and refused for methods they are not defined for.",
     ["inputs", "configurations"],
     "all methods up to the length bound on 3..6 bells and all pairs on 3 and 4, all 16 flag combinations, all sets of rows on "
     "three bells, strided families of treble-hunting minor and major, all 120 tenors-together course heads on 8, 10 and 12 bells",
     "There are no tests of falseness; wrong tables make false touches look true for particular methods only.",
     ["ringing/falseness.h", "ringing/falseness.cpp", "ringing/falseness.dat"],
     [("falseness_table::init, generate_group", "ringing/falseness.cpp"),
      ("false_courses::initialiser, symbols, lookup_symbol", "ringing/falseness.cpp")],
     "method, pair of methods, set of rows and flag combination",
     "Complete within the bounds, except the treble-hunting minor and major families, which are strided. Where the tenor comes "
     "home more than once in a course only one head per course is required. Half leads of bare row lists are the caller's.")

prop("P11", "A touch is called true exactly when no row occurs too often",
     "After any sequence of adding and removing rows, including in branches of a proof, the touch is reported true exactly when no "
     "row occurs more often than allowed, and its length, the count of each row and the number of repeats are right; removing a "
     "row that is not there is refused and changes nothing. The failures listed are exactly the rows occurring too often, each "
     "with every line it occurs on in order while rows are added and removed in order. Proving a list in one go, quickly, or as "
     "an addition to a part known to be true gives the same answer, however often a proof is repeated.",
     ["inputs", "histories"],
     "all row lists over three rows up to the length bound for every limit, all add/remove histories and all branching histories "
     "up to the depth bound, all one-row repetitions of prefixes of the extent on four",
     "Proving is not tested at all; the failures need particular orders of adding, removing and branching.",
     ["ringing/proof.h", "ringing/proof.cpp"],
     [("prover::add_row, remove_row, create_branch, count_row", "ringing/proof.cpp"), ("proof::prove", "ringing/proof.h")],
     "row list and add/remove/branch history",
     "Complete within the bounds, every prefix of every history being checked after each step. Line numbers are only required "
     "while rows are removed last in, first out.")

prop("P12", "A touch iterates over exactly the changes its tree denotes",
     "Iterating over a touch made of lists of changes and lists of repeated children, nested, shared or empty in any way, gives "
     "each change in order as many times as its tree says and then ends, from the beginning or from any position kept on the way, "
     "also after the tree has been edited. Positions compare equal exactly when they are the same, and a copy of a touch gives the "
     "same changes even when the original has gone.",
     ["inputs", "histories"],
     "all two-level trees with up to three children repeated 0..3 times and families of deeper ones with shared children, all "
     "positions of each, and all edit histories up to the depth bound",
     "Touches are not tested; empty and repeated children interact over all trees.",
     ["ringing/touch.h", "ringing/touch.cpp"],
     [("touch_child_list::iterator and touch_changes::iterator", "ringing/touch.cpp")],
     "tree and edit history",
     "Complete for the enumerated trees; negative repeat counts are not covered.")

prop("P13", "A touch search finds every true touch asked for, once, and no other",
     "For any method, calls and limits on length, on any number of bells, whether or not the treble moves and whatever the parity "
     "of the calls, the basic and the table search output every sequence of leads that comes round for the first time with no row "
     "repeated, and nothing else, each exactly once. Asked to ignore rotations they output one of each set of rotations, a search "
     "told to stop outputs nothing more, and lengths given in leads or in changes mean what they say. Given a group of part ends "
     "the table search outputs every part whose leads are true in all parts together and which joins up with that many parts (or, "
     "if asked for mutually true parts, ends at any part end).",
     ["inputs", "configurations"],
     "all methods of up to five changes on three bells and four on four with up to two calls, chosen longer methods on four to "
     "six, every subgroup of part ends on three and four bells and many on five, with all output flags and several length limits",
     "Search results are only tested by one method on one length; soundness and completeness are statements about the whole "
     "search tree for every method and plan.",
     ["ringing/basic_search.cpp", "ringing/table_search.cpp", "ringing/search_base.h"],
     [("run_recursive and the canonical rotation test", "ringing/basic_search.cpp"),
      ("run_recursive, falseness and part end handling", "ringing/table_search.cpp")],
     "method, calls and plan",
     "The oracle is a depth-first search over explicit rows with no falseness tables. Searches whose tree exceeds the node cap "
     "are skipped (counted in the evidence); non-round blocks are not covered.")

prop("P14", "Music patterns match, count and score exactly the rows they describe",
     "For any pattern of bells, choices, single wildcards and stars on any number of bells, a row is reported as music exactly "
     "when it fits the pattern (a pattern too short and without stars being followed by anything), counting once at its stroke for "
     "each pattern it fits, with the bells that fell to wildcards; the number of possible rows is how many rows fit; anything else "
     "is refused as a pattern. Named music and scored music strings give exactly the rows and scores they name. Adding, clearing, "
     "resetting, copying and changing the number of bells in any order leave the counts and scores those operations denote.",
     ["inputs", "histories"],
     "all patterns of up to five elements on one to five bells matched with every row, long patterns and runs on up to 16 bells, "
     "pairs of patterns, all texts over an eight-letter alphabet, all named music on up to seven bells, all histories up to the "
     "depth bound",
     "The tests count possible matches of some twenty patterns and match no rows; the claim is about every pattern against every "
     "row.",
     ["ringing/music.h", "ringing/music.cpp", "ringing/row_wildcard.h", "ringing/row_wildcard.cpp"],
     [("music_node's pattern tree", "ringing/music.cpp"), ("counting the matching rows", "ringing/row_wildcard.cpp"),
      ("named music and scored music strings", "ringing/music.cpp")],
     "pattern, row and operation history",
     "Complete for the enumerated patterns. Where several ways of matching exist any one list of wildcard bells is accepted.")

prop("P15", "A method library file reads as exactly the methods it describes",
     "For any library file in the lightweight, MicroSIRIL or Central Council formats, iterating gives the methods written in it, "
     "in order and nothing else, each with its stage, place notation, name, name without class or stage, and exactly those further "
     "details (payload, reference, first peals, Ringing World and collection references) that are there, whatever its line endings, "
     "byte order mark, blank lines, wrapped names, column layouts, order of tables and final newline. Iterating again, copying "
     "entries, listing, and finding by name, title or notation all agree. Given only a file name, the right format is recognised and "
     "the file is found in the first directory of the library path that has it.",
     ["inputs", "histories", "configurations"],
     "all sequences of up to three lines of eight kinds in lightweight files with each line ending, byte order mark, stage filter and "
     "flag; all titles of a grid of methods and names; all sequences of up to three MicroSIRIL headers and entries and every lead head "
     "code; Central Council tables of every column layout, and all sequences of up to three tables of ten kinds; a set of library paths",
     "The tests read a few fixed files; the state a reader carries between lines, tables and passes is only exposed by sequences of "
     "them.",
     ["ringing/library.h", "ringing/library.cpp", "ringing/libbase.h", "ringing/litelib.cpp", "ringing/mslib.cpp", "ringing/cclib.cpp"],
     [("litelib's entries and the byte order mark", "ringing/litelib.cpp"), ("mslib's headers and lead head codes", "ringing/mslib.cpp"),
      ("cclib's titles, headers and columns", "ringing/cclib.cpp"), ("library path search and recognition", "ringing/library.cpp")],
     "library file",
     "Complete for the generated files. Files whose bells prefix is not a number, and finding in a library while iterating over it, "
     "are not covered.")

prop("P16", "Writing methods, reading XML and keeping method sets lose and invent nothing",
     "For any sequence of methods with any names and any recorded peals and references, the XML written is well formed and has for "
     "each method, in order, exactly its name, title, stage, class, place notation, lead head, lead head code and those details; "
     "reading it gives the same methods back, and lightweight output has one line a method that reads back as it with the name chosen. XML in either format that is read gives exactly the methods it contains, with their "
     "stage (their own or their set's), notation, names and first tower and handbell peals, and anything else is refused. "
     "After any history of appending, "
     "storing details, setting them and clearing, a method set holds each distinct notation once, with the name and details it "
     "first had and those set since.",
     ["inputs", "histories"],
     "all methods of up to four or five changes on two to four bells and a grid on up to twelve, with ten awkward names and all "
     "combinations of details, sequences of up to two; documents in both formats with every form of notation, stage, peal and "
     "location, and all sequences of up to three method sets of thirteen kinds; all method set histories of up to three operations "
     "out of sixteen; every source of entries with every form of lightweight output",
     "Neither output nor XML is tested; names, absent details and sequences of sets matter only in combination.",
     ["ringing/xmlout.cpp", "ringing/xmllib.cpp", "ringing/dom_gdome.cpp", "ringing/methodset.cpp", "ringing/method_stream.cpp", "ringing/libout.cpp", "ringing/libfacet.h", "ringing/peal.h"],
     [("xmlout's append", "ringing/xmlout.cpp"), ("xmllib's entries", "ringing/xmllib.cpp"), ("methodset's entries and facets", "ringing/methodset.cpp"),
      ("method_stream's append", "ringing/method_stream.cpp")],
     "document, entry and history",
     "The XML written is judged by a reader of its own in the harness. Reading back the peals and references that were written is "
     "not covered, as the two formats differ there; nor are the other XML backends, which are not built here.")

prop("P17", "Smart pointers free each object once and share or copy it as promised",
     "After any history of creating, copying, assigning, swapping, resetting, releasing and storing in containers, a shared pointer's "
     "copies see one object, freed with its own deletor when the last goes; a copy-on-write pointer's copies share until one is used "
     "to modify, which none of the others sees; a cloning pointer's copies are independent; a scoped pointer frees what it holds unless "
     "released. No object is freed twice, used after being freed or never freed.",
     ["histories"],
     "all histories of up to four operations (five for scoped pointers), out of about sixty with three pointers, one to two million "
     "histories of each kind of pointer",
     "The pointers have no tests; a reference count is wrong only after particular sequences.",
     ["ringing/pointers.h"],
     [("reset, copying and reference counts", "ringing/pointers.h")],
     "history of operations",
     "Complete for three pointers within the depth; failure to allocate a reference count is not covered.")

prop("P18", "gsiril proves each touch exactly as ringing it through would",
     "For any touch, on any number of bells, extents, starting row and expected length, gsiril rings its rows in order and runs the "
     "everyrow, toolong, rounds and conflict symbols after each row as they apply, then start, finish, abort and exactly one "
     "of true, notround, false and tooshort, whatever those symbols say or do. A touch is true only if no row comes more often "
     "than the extents allow, it ends in the starting row and its length is as required; rows after the touch has been ended are "
     "not proved. Assignments, breaks, loops, alternatives, reversal and definitions take effect when they are reached, those made "
     "in a touch last no longer than it does, and the output and exit status follow the verdict and the -q options.",
     ["inputs", "histories"],
     "all touches of up to five elements (six in thorough) from a grammar of changes, calls, text, transpositions, repeats, reversals, loops and alternatives, on three and four bells, "
     "once and twice through, from every starting row; every special symbol given each of six bodies for fifteen kinds of touch, "
     "five length limits and three levels of quiet; all sequences of three assignments and of four definitions",
     "The tests prove a handful of fixed touches; the verdict depends on how a touch's parts combine with what every symbol does.",
     ["apps/gsiril/proof_context.cpp", "apps/gsiril/expression.cpp", "apps/gsiril/statement.cpp", "apps/gsiril/execution_context.cpp", "apps/gsiril/symbol_table.cpp", "apps/gsiril/init/gsiril.init"],
     [("permute_and_prove", "apps/gsiril/proof_context.cpp"), ("prove_stmt", "apps/gsiril/statement.cpp"), ("nodes' execute", "apps/gsiril/expression.cpp")],
     "touch program",
     "The real program runs every touch and its whole output and exit status are compared with an interpreter written from the guide. "
     "Not covered: endless touches, reversed transpositions, a break outside a loop and a pattern's reading on one line with another slash.")

prop("P19", "gsiril's expressions and statements mean what its guide says",
     "For any expression, arithmetic, comparison, logic, joining, string substitution and escapes, functions, row patterns and replacement of "
     "changes give the values the guide defines, with its precedence, grouping, types and short-circuiting, at whatever row they are reached, "
     "or are refused where it gives none. Statements take effect in order through any nesting of if, elseif, else and foreach; "
     "row masks choose the bells printed, or the rows, as their pattern says. A program means the same however its statements are "
     "separated, commented, bracketed and broken into lines.",
     ["inputs", "histories"],
     "all arithmetic trees of up to three operators (with every bracketing) and logic trees of seven nodes, all pairs of twenty-four operands for "
     "each comparison, all strings of up to five characters over the active characters, all functions at all rows of three to five "
     "bells, all patterns of up to four symbols (five on three bells) at every row, all masks of up to four symbols, all replacements of every length and position, all nested "
     "statements to depth two, forty thousand layouts",
     "Hardly an operator is tested; precedence, escapes and patterns go wrong only in particular combinations.",
     ["apps/gsiril/expression.cpp", "apps/gsiril/parser.cpp", "apps/gsiril/functions.cpp", "apps/gsiril/statement.cpp", "apps/gsiril/proof_context.cpp", "apps/utils/tokeniser.cpp"],
     [("make_expr", "apps/gsiril/parser.cpp"), ("nodes' evaluation", "apps/gsiril/expression.cpp"), ("substitute_string, string_escapes", "apps/gsiril/proof_context.cpp"), ("tokeniser", "apps/utils/tokeniser.cpp")],
     "program",
     "Not covered: chains of comparisons or of replacements, pos() of a bell that does not ring, and masks with more than one star.")

prop("P20", "gsiril's options act as the matching statements do, and its limits hold",
     "However each setting, definition, touch and source is given to gsiril, as an option in any of its forms, in a module or as "
     "a statement, its output and exit status are the same, and impossible combinations are refused. A node limit stops any program that "
     "reaches it and never alters another, --prove-one proves one touch, --determine-bells reports the bells without proving and tracing reports each symbol executed with its row. "
     "A filter passes on exactly those methods of its input, in order with their payload, for which every proof succeeds; modules and method libraries give their definitions and methods, wherever they lie on the path, and leave everything else as it was.",
     ["inputs", "histories"],
     "every combination of three ways of giving each of seven settings, three sources and five touches (a fifth of them in quick), every sequence of "
     "up to three touches or definitions, every node limit up to the work done, every sequence of up to four statements, every filter over all "
     "methods of up to four changes on four bells, all pairs of modules along both paths, every method name with every list of suffixes",
     "Options are not tested, and modules, limits and filters interact with the state left by what ran before.",
     ["apps/gsiril/main.cpp", "apps/gsiril/prog_args.cpp", "apps/gsiril/import.cpp", "apps/gsiril/execution_context.cpp", "apps/gsiril/statement.cpp", "apps/utils/args.cpp"],
     [("initialise, run and filter", "apps/gsiril/main.cpp"), ("options", "apps/gsiril/prog_args.cpp"), ("increment_node_count", "apps/gsiril/execution_context.cpp"), ("load_file", "apps/gsiril/import.cpp")],
     "command line",
     "Not covered: colours, underlining, interactive and verbose mode and the MicroSiril and Sirilic modes.")

prop("P21", "methsearch lists exactly the methods which meet the criteria",
     "For every path of the hunts (plain, dodging or little, any number of hunts or none), methsearch lists once each exactly the methods which satisfy every criterion "
     "given: falseness level, symmetries, longest place, places per change, adjacent places, right-place, 78 places, lead heads and lead ends, the Surprise, Treble Bob and Delight "
     "classes and the shape of each dodging section. Each is listed with its lead head, whatever other criteria are combined with it and however the search is pruned. A combination that is not supported is refused.",
     ["inputs"],
     "every method with each of 20 kinds of hunts' path on 2-6 bells (up to 100000 of them per path), every single criterion and every pair of criteria (in the thorough "
     "tier every three), which is some 21000 searches",
     "The search prunes and completes methods by symmetry in a way that depends on every criterion at once; the tests count the methods of a few searches.",
     ["apps/methsearch/search.cpp", "apps/methsearch/mask.cpp", "apps/methsearch/methodutils.cpp", "apps/methsearch/prog_args.cpp", "apps/methsearch/falseness.cpp"],
     [("searcher", "apps/methsearch/search.cpp"), ("parse_mask", "apps/methsearch/mask.cpp"), ("validate", "apps/methsearch/prog_args.cpp")],
     "command line",
     "One known finding: the first row of a lead is not proved (pinned by the existing tests).")

prop("P22", "Row expressions are evaluated as documented",
     "rowcalc evaluates every row expression to the rows its definition gives: products, both divisions, conjugation, powers and differences, with their precedence and associativity, of rows with the treble or tenors left out. "
     "An expression with sets, groups, files, commands or standard input is evaluated for every combination of their members, whichever side of an operator they are on and however they are nested. "
     "The number of bells pads or truncates the rows, -c counts them, -C allows changes, and every malformed expression, file or row is refused with an error and non-zero status.",
     ["inputs"],
     "every sequence of up to four of thirteen tokens (five in thorough), every expression of three operators on three rows with every placing of one pair of parentheses, every literal of up to four symbols as a row and as an "
     "exponent, every operator with every pair of nested sets of depth one (two in thorough), every operator with each source on either side, every separator and ending of a file",
     "Row expressions are not tested; sets are re-evaluated by restarting parts of the expression, so errors show only in particular nestings.",
     ["apps/utils/row_calc.cpp", "apps/utils/row_calc.h", "apps/utils/tokeniser.cpp", "apps/utils/exec.cpp", "apps/rowcalc/rowcalc.cpp"],
     [("rc_parser and the nodes", "apps/utils/row_calc.cpp"), ("evaluate_expr", "apps/rowcalc/rowcalc.cpp"), ("tokeniser", "apps/utils/tokeniser.cpp")],
     "command line",
     "Not covered: interactive mode, and integers in parentheses after ^.")

prop("P23", "touchsearch prints every touch asked for, once, and nothing else",
     "For a method, calls, part ends and a length range, touchsearch prints exactly the touches which are true in every part and first return to the plain course's start (or a part end) at their end, each once and with its calls, parts and length stated correctly. "
     "Rotations, mutually true parts, limits, counts, names and formats change the listing only as their options say, --filter passes on exactly the methods with a touch, and -a searches exactly the leads its plan gives. "
     "Bad arguments and plan lines are refused or reported.",
     ["inputs"],
     "every method of one to three changes and the symmetric plain methods on four bells with every set of one or two calls, every part end (and pairs of them), every length range up to 32 changes, every plan of four kinds of "
     "lead over the six lead heads with four sets of calls, every combination of printing options, every limit up to eight, and every three-line plan file of twelve kinds of line",
     "touchsearch is not tested; its errors need a particular mixture of parities, part ends and lengths.",
     ["apps/touchsearch/main.cpp", "apps/touchsearch/prog_args.cpp", "apps/touchsearch/join_plan_search.cpp", "ringing/table_search.cpp", "ringing/search_base.h"],
     [("print_touch and search", "apps/touchsearch/main.cpp"), ("arguments", "apps/touchsearch/prog_args.cpp"), ("join_plan_search", "apps/touchsearch/join_plan_search.cpp")],
     "command line",
     "Not covered: -R and the order of the listing.")

prop("P24", "methsearch's masks, rows and orders select as its manual says",
     "A mask (with ?, *, alternatives, &, ',', above and below work and bell expressions), --prefix, --changes, --row-match and -Fr with -Fs select exactly the methods they describe from those which the other criteria allow, and a mask is refused only when it is malformed, of the wrong length or cannot be satisfied. "
     "--start-at resumes the listing from the method given, --limit, -C, --raw-count, -H, -q and -o give the counts and statistics of the listing, --random only reorders it, and a filter (inverted or not) passes exactly the right methods in order with what follows them. "
     "Response files mean what the same arguments do.",
     ["inputs"],
     "every mask of up to three or four elements for principles on three to five bells and for plain and dodging methods on three to six bells every pair of fixed positions and every form of block; every pair of fixed positions under each symmetry; "
     "every prefix of up to three changes; starting points, limits, outputs, filters and random orders of ten small searches; every list of changes; every row number with ten patterns; pairs of starting rows and avoided rows in half-leads, leads and courses",
     "methsearch is not tested; masks, symmetries and pruning interact, and an error loses or adds only methods of particular shapes.",
     ["apps/methsearch/mask.cpp", "apps/methsearch/search.cpp", "apps/methsearch/prog_args.cpp", "apps/methsearch/format.cpp"],
     [("read_and_expand_blocks, merge_changes, is_mask_consistent", "apps/methsearch/mask.cpp"), ("searcher", "apps/methsearch/search.cpp"), ("arguments", "apps/methsearch/prog_args.cpp")],
     "command line",
     "Not covered: whether a mask overrides -f at the lead-end (the manual contradicts itself), and restarting a random search.")

prop("P25", "methsearch's variables, formats and statistics say what each method is",
     "Every variable that describes a method in a format given to -R, -H or --status (number of bells, lead length, lead head and its code, place notation and parts of it, changes, rows, paths, blows, order, hunt bells, cycles, symmetry, staticity, coursing order, over- and underwork, names, identifiers, payload, number) has the value the method has, in the width asked for, and <ERROR> where the method has none; "
     "place notation is printed in the style asked for and reads back as the method. "
     "A format's escapes mean what the manual says, and a format is refused exactly when it is malformed. -H gives each distinct value once with the number of methods that have it.",
     ["inputs"],
     "every method of some thirty families of lead on two to eight bells (plain, dodging, twin-hunt, principles, symmetric and asymmetric), with every change, row, path and slice of notation within and beyond the lead; every format of up to four characters over six alphabets, every byte after nothing, \\, \\x and $; every variable with none, one and two numbers in each kind of format; every pair of twelve statistics over seven families",
     "methsearch's output is not tested; the code for a lead head, a symmetry or a compressed notation is wrong only for methods of particular shapes, and the parser of formats has many states.",
     ["apps/methsearch/output.cpp", "apps/methsearch/format.cpp", "apps/methsearch/methodutils.cpp", "apps/methsearch/libraries.cpp"],
     [("method_properties::impl::get_property", "apps/methsearch/output.cpp"), ("format_string, histogram_entry", "apps/methsearch/format.cpp"), ("split_over_and_under, staticity, tenors_together_coursing_order", "apps/methsearch/methodutils.cpp")],
     "command line",
     "Not covered: staticity of a pair of bells that never separates, $,1p, and the time ($T).")

prop("P26", "methsearch's expressions, requirements and commands do what its manual says",
     "An expression in $[ ] or -Q is accepted exactly when the manual's grammar allows it and has the value given by the manual's operators, precedence, associativity, conversions and short circuits; an error of evaluation (such as a word used as a number, or a division or remainder by zero) prints <ERROR> or makes -Q fail, and nothing an expression contains ends the program abnormally. "
     "-Q finds exactly the methods for which it is true; suppress hides a method that is still numbered, counted and tallied, and abort ends the search before the method is printed. "
     "A command is run once per evaluation with its variables and nested expressions filled in, its output (of any size) becomes the value, and $? is the status of the most recent command in the format.",
     ["inputs"],
     "every expression of two operands over thirty operands and twenty-two operators, of three and four operands over smaller sets, with and without brackets; every sequence of up to nine tokens over three alphabets of conditionals; every sequence of three of thirty-two tokens; every text of up to four characters over ten alphabets of quotes, brackets and operators; every pattern of up to four elements against every row of four bells; "
     "the trace of commands of every short-circuiting expression of three operands; every history of up to three commands and statuses; every pair of sixteen requirements and twelve uses of suppress and abort over five searches",
     "methsearch's expressions are not tested; a parser's errors show only for particular sequences of tokens, and crashes on malformed ones are never met in ordinary use.",
     ["apps/methsearch/expression.cpp", "apps/methsearch/format.cpp", "apps/utils/exec.cpp", "apps/utils/tokeniser.cpp", "apps/methsearch/search.cpp"],
     [("expression::parser::make_node", "apps/methsearch/expression.cpp"), ("format_string::format_string, histogram_entry::print", "apps/methsearch/format.cpp"), ("exec_command", "apps/utils/exec.cpp")],
     "command line",
     "Not covered: integer overflow, spaces around numbers within strings, a comma between ? and :, $ inside string literals, the order in which the two arguments of an operator that does not short-circuit are evaluated, and suppress within -Q.")

prop("P27", "methsearch scores the music it is asked for, in the rows it is asked about",
     "The score of a method ($M) is, over every batch of -M options, the sum over the blocks of the batch and its patterns of the score of the pattern for each row of the block that matches it, n-run patterns counting each run of n in the row. "
     "A batch is one or more block options (course, lead, halflead, 2halflead, 2rhalflead, rhalflead, each from a row or from every row of a row expression, defaulting to those of the previous one, or rounds) followed by patterns; a first batch without blocks is the plain course, and a last one without patterns, or no -M at all, scores combination roll-ups; "
     "a lead holds its lead head and not the next one; half-leads begin or end at the row given; the first row after a lead head is at handstroke, and the score given for that stroke is the one awarded. "
     "The score is the same in formats, expressions, requirements and summaries, in searches and in filters of methods of several stages; malformed patterns, rows and names are reported before any method is printed.",
     ["inputs"],
     "every pattern of up to three elements (four at depth) of seven, and every named pattern at every stage from 3 to 12; every pair of thirteen scores; every sequence of up to three (four at depth) of twelve options; every kind of block from every row of 3, 4 and 5 bells; each over every method of a world of up to a thousand methods, "
     "the score of every method of each world in every case, compared one by one",
     "methsearch's music options are not tested; a score that is wrong by the stroke, by the row at the edge of a block or by the batch it is counted in is plausible and is only seen by counting every row again.",
     ["apps/methsearch/music.cpp", "apps/methsearch/prog_args.cpp", "ringing/music.cpp"],
     [("musical_analysis::analyser::analyser, musical_analysis::analyse", "apps/methsearch/music.cpp"), ("music::add_scored_music_string, music::process_rows", "ringing/music.cpp")],
     "command line",
     "Not covered: scores that overflow an int, an empty pattern, patterns longer than the row (they match nothing), half-leads of odd leads, the stroke of the row at both ends of an odd course, text before the colon that is not a number; rows from files and commands.")

prop("P28", "extent lists the rows it is asked for, and musgrep matches and scores them",
     "extent prints every row with the given bells fixed in front and behind, or every in-course one, exactly once and no other row. "
     "musgrep prints, marks or counts exactly the rows of its input, of the number of bells given and of the course given, that match at least one pattern, each once however many patterns match; its scores are the sums over rows and patterns of the score for the stroke the row is rung at (the rows of that number of bells are alternately handstroke and backstroke, counted before the course is considered), in total, for each pattern, and as numbers of rows with a positive or negative score. "
     "This holds for every set of options, every spacing of the rows and rows of other sizes in between; malformed options and patterns are reported with no output.",
     ["inputs"],
     "extent on up to 8 bells (9 at depth) with every choice of fixed bells, and up to 33 bells with few moving; musgrep with every set of its options, every pattern of up to three elements (five at depth), every pair of twelve patterns, every stream of up to three rows (four at depth) of seven, and the named patterns on 1 to 12 bells",
     "There are no tests of these programs; scores and counts which go astray only for some options, strokes or rows of other sizes look plausible.",
     ["apps/extent/extent.cpp", "apps/musgrep/musgrep.cpp", "ringing/extent.h", "ringing/music.cpp"],
     [("main", "apps/extent/extent.cpp"), ("main", "apps/musgrep/musgrep.cpp"), ("music::process_row", "ringing/music.cpp")],
     "command line",
     "Not covered: text in the input of musgrep that is not a row (it ends the input), terminals and highlighting by colour, extent without -b, more than 33 bells.")

prop("P29", "methodlib prints the methods asked for from the libraries it is given",
     "methodlib prints, from all the libraries named and those of the environment, exactly the methods with the stage, lead length and beginning of title required, each once, or for each title asked for by option or on standard input, in order, the method with that title, or with it followed by the first of the suffixes for which there is one. "
     "Each line has the number of bells if asked for, a place notation which is that of the method, and its name, full title, nothing, or the text that came with the title, as asked for. "
     "It reports every title not found, continues with the others, and its status is success just when all that were asked for were printed (or, when none was named, any were); unusable libraries and contradictory options are reported with no output.",
     ["inputs"],
     "every pair of six libraries, every combination of eight stages, ten lengths and thirteen beginnings, every pair of nine titles by either means, eleven lists of suffixes with every pair of nine and four titles, and every text of up to two (three at depth) of twelve lines of input, each in every form of output",
     "There are no tests of this program, and a method left out or printed twice for one combination of options is not noticed.",
     ["apps/methodlib/methodlib.cpp", "ringing/methodset.cpp", "ringing/method_stream.cpp", "ringing/library.cpp"],
     [("filter_by_titles, filter_by_start", "apps/methodlib/methodlib.cpp"), ("methodset::impl::append", "ringing/methodset.cpp"), ("method_stream::impl::append", "ringing/method_stream.cpp")],
     "command line",
     "Not covered: the order in which methods are listed when no titles are given, -a without -T, libraries that hold one method under two names or two methods under one; the formats of libraries are those of P15.")

prop("P30", "psline draws the rows, lines and marks of a method; printmethod writes its rows",
     "For every method psline draws, in PostScript, EPS and PDF alike, the rows reached by its changes from the starting row, in columns and pages laid out as the options for leads, rows, columns, pages, spacing, paper and fit say, every row and lead once and in order, and within the page when it chooses the spacing itself. "
     "In them exactly the bells chosen have a line joining their places in consecutive rows, of the colour and width asked for, the numbers not missed are printed, and the place bells, place notation, rules, guides, calling positions and title asked for (or the documented defaults) stand at the right rows; impossible or malformed options are reported and nothing is drawn. "
     "printmethod writes the rows of one lead or the course from the starting row, with the rows omitted and the blows of rounds asked for.",
     ["inputs"],
     "sixteen methods on 2 to 12 bells (differential, little, odd, one- and two-change leads) and every method of one to four changes on few bells (3 bells to four changes, 4 to two or three, 5 to one or two); defaults with every format, orientation and choice of numbers and notation; every pair of values of ten content options, every pair of parameters of a rule, every starting row on 4, every kind of line for each of 4 bells, every byte in a title; a regular fraction (all at depth) of every combination of nine ways to lay out with rows, totals, columns across and down and pages; printmethod with every combination of its options, and every method of a few changes",
     "The tests of printing only compare a handful of whole files for a few methods; a wrong row, line, mark or page for another combination of method, layout and options is not seen.",
     ["ringing/print.cpp", "ringing/print_ps.cpp", "ringing/print_pdf.cpp", "ringing/printm.cpp", "ringing/pdf_fonts.cpp", "ringing/dimension.cpp", "apps/psline/psline.cpp", "apps/printmethod/main.cpp"],
     [("printmethod::print", "ringing/printm.cpp"), ("printrow_ps, printpage_ps", "ringing/print_ps.cpp"), ("printrow_pdf, printpage_pdf", "ringing/print_pdf.cpp"), ("main", "apps/psline/psline.cpp"), ("printmethod main", "apps/printmethod/main.cpp")],
     "command line",
     "The output is read by a small PostScript interpreter and PDF reader of the harness and judged as a picture. Not covered: sizes of glyphs and fonts chosen by a fit, calling positions outside the bounding box of an EPS file, titles taller than the space to fit, -G with an unknown style, -R of the wrong length, -F with -L, :v, the condensed place bells above 10 in PDF; a rule A,B is taken to follow the Ath row of the lead, its first being row 1.")

prop("P31", "splices finds every splice between methods, and describes it",
     "For every pair of methods on one number of bells the rows splices -F prints are exactly the false lead heads between them -- the rows with the treble home from which a lead (with -h, half a lead) of one shares a row with the first of the other, of the parity -i or -o asks for -- and -G prints exactly the smallest group containing them (with -o, their quotients). "
     "Of all the pairs on standard input, or of those with the method given, it shows each once, as a splice of as many leads as half the group has rows (and with the pivot bell or swapping pair, where the group is a whole or half symmetric group fixing one), leaving out those where the group is everything unless -n asks for it, of another length than -l, or with -e of differing lead ends. "
     "With -g it shows instead the sets of methods joined by splices of one description, with lead splices bracketed; with -I it prints exactly the methods with a splice with the one given, or with no lead splice with an earlier one; and impossible combinations of options are refused.",
     ["inputs"],
     "every pair of the palindromic treble-hunting methods on 4 bells and of a batch of them on 5 (31 batches covering all 900), and twenty methods on 6, under 62 combinations of -i -o -h -e -n -l -g -I; one method against all; every ordered pair with -F, -G and -p; rows from a file or standard input; 26 refusals; deep: 13 larger batches under every combination, and more pairs",
     "No test runs splices; a pair missed, a splice of the wrong length or a wrong group for some pair of methods and options would not be seen.",
     ["apps/splices/splices.cpp", "ringing/falseness.cpp", "ringing/group.cpp", "ringing/methodset.cpp", "ringing/litelib.cpp"],
     [("splices::test_splice", "apps/splices/splices.cpp"), ("falseness_table::init", "ringing/falseness.cpp"), ("falseness_table::generate_group", "ringing/falseness.cpp"), ("generate_group", "ringing/group.cpp")],
     "command line",
     "Accepted: which way round -F and -o are for a pair, the order of pairs, lines and lead ends, and the name of a splice whose group has an odd number of rows (half, rounded down) are the program's own choice.")

prop("P32", "spliceplan finds every plan of splicing methods, once, and only true ones",
     "Given palindromic methods, spliceplan prints one line for every way to assign to each row with the treble leading (with -i, each in-course one) one of the methods so that the leads rung from all those rows, each row being the lead end of the lead that starts at it, are mutually true, and no line for anything else, giving the number of rows assigned to each method. "
     "With -P only the plans unchanged by the part-ends are printed, with -r one plan of each class of rotations and its size; -O writes each plan as its rows, place notations and names, to the numbered file. "
     "Part-ends or methods that cannot be used, bad options, and files that cannot be written are errors with status 1, never aborts.",
     ["inputs", "histories"],
     "every palindromic treble-hunting method on 4 bells alone and with each other one, and bigger sets up to all; on 5 bells single methods, pairs and triples of every 7th (deep: every) palindrome; in-course doubles with eight other treble paths, which leave leads false with each other, under every subgroup of the part-ends; pairs and triples of twenty minor methods; with -i, -r, -P and -O; cases with more plans than a cap are counted but not compared; 22 refusals",
     "No test runs spliceplan; a plan missed, repeated or false for one set of methods and part-ends would not be seen.",
     ["apps/spliceplan/spliceplan.cpp", "ringing/falseness.cpp", "ringing/multtab.cpp", "ringing/group.cpp", "ringing/litelib.cpp"],
     [("searcher::recurse", "apps/spliceplan/spliceplan.cpp"), ("searcher::is_possible", "apps/spliceplan/spliceplan.cpp"), ("searcher::set_method", "apps/spliceplan/spliceplan.cpp"), ("sqmulttab", "ringing/multtab.h")],
     "command line",
     "Accepted: the order of plans; methods which are not palindromic, or false within a lead, or whose last row before the lead head is rounds (refused); duplicate methods are different methods.")

prop("P33", "every program reads its options and response files by the same rules",
     "For every sequence of words on the command line, option letters can be clustered, the argument of an option follows its letter, or is the next word if needed and not itself an option, or follows = after its name, optional arguments take their default, the words after -- and those not beginning with - are taken in order as the program's own arguments, and everything else (unknown names, missing or unwanted arguments, text that is no number, range or row) is refused with one message. "
     "@file stands for the words in the file, split at white space except as quotes and backslashes say, and those of files named in it; and --help shows every option with its whole description inside the width. "
     "Every program answers --help and --version with status 0, and refuses unknown options, missing and unwanted arguments, and unreadable or endless response files with a message and a nonzero status.",
     ["inputs"],
     "all sequences of at most three words out of 67 (deep: four) for a parser with every kind of option; every cluster of up to 5 (7) characters out of 12; every text of up to 4 (6) characters as an integer or range and 5 as a row; every response file of up to 6 (8) characters of six kinds, every pair of words split between files in four ways, every seventh (deep: every) set of three files each holding two of five things; 512 descriptions, repeated, in six forms of option; and all options of the thirteen programs that their --help names",
     "No test covers option parsing: a cluster, optional argument or quoted response file read wrongly affects every program, for some combination of words.",
     ["apps/utils/args.cpp", "apps/utils/args.h", "apps/utils/argv.cpp", "apps/utils/stringutils.cpp", "ringing/lexical_cast.h"],
     [("arg_parser::do_parse", "apps/utils/args.cpp"), ("expandargv", "apps/utils/argv.cpp"), ("buildargv", "apps/utils/argv.cpp"), ("range_opt::process", "apps/utils/args.cpp"), ("arg_parser::wrap", "apps/utils/args.cpp")],
     "command line",
     "Accepted: a second minus sign in a range; a response file with a NUL character; what is set once the command line has been refused; which rows are valid (see P02).")

prop("P34", "fextent keeps only true, complete sets of leads whatever it chooses at random",
     "After any number of steps, whichever random choices are made, the leads or courses fextent keeps are mutually true in all parts, include those required by -r, and respect -b, -i, -p, -c and -t; and the numbers of leads and changes it prints are those of the set printed. "
     "The sets that can be reached are exactly those got by adding a lead, dropping those false against it, or removing one, when the weights given by -W do not get less, or when the choice to accept a loss is made. "
     "With -k every lead kept is followed by another, -l starts each run afresh and reports the best, and a request that cannot be met is refused with a message and status 1.",
     ["inputs", "schedules"],
     "every random choice of 2 to 6 steps of the search, in the program's own code, for 8 methods on four bells, 6 on five and 6 principles, with 5 or 6 part-ends, in course or not, required leads and weights; whole courses of 12 methods on four to six bells and (the first 300 choices) tenors-together courses on seven and eight; two runs with -l; 9 linked methods with two sets of part-ends; 31 refused command lines",
     "There is no test of fextent and its answer depends on a random number generator: a set that is false only after one particular sequence of additions and removals is not found by running it.",
     ["apps/fextent/fextent.cpp", "ringing/falseness.cpp", "ringing/multtab.cpp", "ringing/group.cpp"],
     [("state::perturbation", "apps/fextent/fextent.cpp"), ("state::init_flhs", "apps/fextent/fextent.cpp"), ("state::init_req", "apps/fextent/fextent.cpp")],
     "random search",
     "Accepted: methods false within the lead or plain course; -c with part-ends moving the tenor; weights of zero (never added) and those that are not integers; -t shows tenors-together courses only; -k with whole courses or Q-sets.")

prop("P35", "gsiril's MicroSiril mode proves old compositions as MicroSiril did",
     "With --msiril or --sirilic, or run as msiril, microsiril, sirilic or the same with a g before it, a single slash begins a comment, names may contain %, - and !, and names and keywords mean the same in either case. "
     "With no proof asked for, the touch defined first in the input (not in a module, on the command line or initially) is proved; -P with a name proves that one. "
     "Dollar signs in strings count repeated rows, never naming variables, underscores are printed as they are on a terminal that cannot underline, and patterns, row masks and logical, comparison, merging and shifting operators are refused; all else is as in P18 and P19.",
     ["inputs"],
     "all programs of up to 3 (deep: 4) of 19 statements, run in one of ten ways (those of up to 2 in all ten); every choice of six kinds of line break or comment at each place where one is allowed in three programs; every name of up to 4 (5) characters out of 7 with three uses; every string of up to 4 (5) characters out of 9; 2400 programs with six forms of -P; the operators refused",
     "No test runs this mode; it changes the tokeniser, the parser and the strings, for programs made of any mixture of these.",
     ["apps/gsiril/parser.cpp", "apps/gsiril/prog_args.cpp", "apps/gsiril/main.cpp", "apps/gsiril/proof_context.cpp", "apps/gsiril/symbol_table.cpp", "apps/utils/tokeniser.cpp"],
     [("mstokeniser::validate", "apps/gsiril/parser.cpp"), ("arguments::set_msiril_compatible", "apps/gsiril/prog_args.cpp"), ("prove_first_symbol", "apps/gsiril/main.cpp"), ("proof_context::substitute_string", "apps/gsiril/proof_context.cpp")],
     "MicroSiril mode",
     "Accepted: -P proves nothing if the input is quite empty; alternatives on something other than a pattern are accepted, though the guide says they are disabled.")

prop("P36", "ringmethod strikes every bell when and as it should, however it is struck",
     "Each bell of each row given to ringmethod is heard once, at the place in the row, the speed, the handstroke lead and the sample rate asked for, moved by the offset given for it at hand or back and by the error chosen for that blow; and nothing else is heard. "
     "The sound is the sum of the bells struck, each ringing from its last blow at its pitch in the major scale down to the tenor, with rows on fewer bells covered; the stream is a WAV stream of that rate which ends about five seconds after the last blow. "
     "Rows on too many bells and unusable arguments are refused with a message and status 1.",
     ["inputs", "histories", "schedules"],
     "every sample of the stream for: all sequences of rows up to length 6, 5, 3 (thorough 4) and 2 (3) on one to four bells with three handstroke leads; 1 to 33 bells at four pitches and three rates; 14 speeds by four stages and three rates; ten offsets for each bell of four, five and twelve and for every pair of bells of four; every choice of early, right or late for each blow of two (thorough three) rows on three bells and of up to four rows with deviations given for one bell; 35 covers; 19 rates; 137 refused command lines and inputs",
     "There is no test of ringmethod, and its output is sound: a bell missing, doubled or late after one combination of offsets is not something a test with a sample row shows, and the errors of striking are random.",
     ["apps/ringmethod/ringmethod.cpp"],
     [("row_player::do_ring", "apps/ringmethod/ringmethod.cpp"), ("tower_sounds::tower_sounds", "apps/ringmethod/ringmethod.cpp"), ("offset_opt::process", "apps/ringmethod/ringmethod.cpp")],
     "command line",
     "Accepted: the speed is computed as if the handstroke lead were one blow; text which is not a row ends the rows silently; the stream stops at a whole block of 256 samples; offsets near a whole row or more; -f takes a time; sums too great for 16 bits; blows whose time is within rounding of a sample are checked for number and length only.")

prop("P37", "Whatever symbols stand for the bells, every program answers in those symbols",
     "In every program which reads $BELL_SYMBOLS, the answer to a question put in some symbols is the answer to the same question put in the usual ones with the symbols changed for the bells, and the status is the same; in particular what is found, counted, named or scored does not depend on the symbols. "
     "Lower and upper case are alike unless both are symbols. "
     "Bells with no symbol are written and read by number in braces.",
     ["inputs", "configurations"],
     "six sets of twelve symbols (upper case, lower case, digits in another order, with I and O, in both cases and mixed), and each of three of them in the other case, for: extent of 1 to 6 bells, every mask up to two (thorough four) on four bells; musgrep with every mask up to two to four symbols over the extents of three to five bells; every product, quotient and power of rows on four bells; every method of two changes on four bells and 13 others drawn and printed; 29 methsearch searches, its 18 things said of 23 methods, 36 limited lead-end, code and falseness criteria; touchsearch, fextent, splices, ringmethod; sets of none to four symbols on 1 to 6 bells",
     "No test sets the symbols; a literal row or change in the code which is right in the usual symbols aborts or silently matches another bell under any other, in whichever option happens to use it.",
     ["ringing/bell.cpp", "ringing/falseness.cpp", "ringing/method.cpp", "apps/utils/row_calc.cpp", "apps/musgrep/musgrep.cpp", "apps/touchsearch/main.cpp", "apps/fextent/fextent.cpp", "apps/methsearch/methodutils.cpp", "apps/methsearch/search.cpp", "apps/rowcalc/rowcalc.cpp", "apps/extent/extent.cpp"],
     [("bell::set_symbols_from_env", "ringing/bell.cpp"), ("bell::read_char", "ringing/bell.cpp"), ("old_lhcode_6", "apps/methsearch/methodutils.cpp")],
     "command line",
     "gsiril and methodlib do not read $BELL_SYMBOLS, and psline's labels at place bells are positions, so those are not claimed.")

NOT_APPLICABLE = []

# (property, short commit subject fragment, what failed)
FIXED = [
 ("P01", "conjugator of rows on more than 33", "conjugator of two rows with more than 33 bells shifted an int too far and gave a wrong row"),
 ("P02", "null character is not a bell symbol", "reading the null character as a bell gave the bell one past the symbol set"),
 ("P02", "do not read I or 1 as a tenth", "I or 1 read as a bell in symbol sets without either"),
 ("P02", "reject the bells {0} and {}", "{0} and {} were accepted as bells"),
 ("P02", "reading a row that ends the stream", "reading a row that ends the stream reported failure"),
 ("P03", "change::swappair no longer reads past", "swapping a pair beyond the last swap of a change read past its end"),
 ("P04", "reading a bell in braces no longer", "place notation ending in an open brace was read beyond its end"),
 ("P04", "formatting an empty method without", "an empty method printed without its lead head read before its first change"),
 ("P05", "classifying a method reads no further", "classification and lead head codes of short methods read outside the method"),
 ("P05", "bell symmetry about points in the second", "symmetry of a bell's path about points in the second half lead was wrong, and an empty method divided by zero"),
 ("P05", "hasdodges on an empty method", "hasdodges of an empty method divided by zero"),
 ("P05", "method::maxblows gave -1", "the longest blow of a method making no places was -1"),
 ("P05", "set_untitled only took effect", "the name used for untitled methods could only be set once"),
 ("P05", "classifying a one-bell method", "classifying a method on one bell looked for a second"),
 ("P07", "conjugating a group by a row on more", "conjugating a group by a row on more bells gave a wrong group"),
 ("P07", "right coset labels of rows", "right coset labels of rows on other numbers of bells differed within a coset"),
 ("P06", "decrementing an end extent_iterator", "an end iterator of an extent could not be decremented"),
 ("P06", "position_in_extent of a row without", "the position of a row without its fixed tenors was read beyond the row"),
 ("P08", "hcf with zero", "hcf with zero divided by zero, and lcm overflowed where its result is representable"),
 ("P06", "factorials from 13 up", "extents on 13 or more bells used a 32-bit factorial"),
 ("P09", "finding a row in a multtab of coset", "looking up a row in a table of coset representatives with a post group failed an assertion"),
 ("P10", "half-lead falseness considered", "half-lead falseness of methods took only a quarter of the lead"),
 ("P10", "false_courses looped for ever", "false course heads were sought for ever when the tenor never gets home"),
 ("P10", "default falseness tables had", "a default falseness table had uninitialised flags"),
 ("P10", "swapping falseness tables left", "swapping falseness tables or false course sets did not swap their flags and lead heads"),
 ("P01", "the half lead of a one-change", "the half lead of a one-change method wrote a row outside the block"),
 ("P11", "provers kept repeated rows", "removing a row removed its first occurrence and repeated lines were listed out of order"),
 ("P11", "failure information omitted", "failure lists omitted lines of a chained proof and kept rows no longer repeated"),
 ("P11", "a branch of a false prover", "a branch of a false proof claimed to be true"),
 ("P11", "proof's constructors used", "constructing a proof of a false touch wrote to an unconstructed list"),
 ("P11", "a full proof listed only", "a full proof listed only the first repeated row, after those of any earlier proof"),
 ("P12", "touches with repeat counts of zero", "touches with children rung no times or having no changes were rung for ever or past their end"),
 ("P13", "older constructors left its length range", "table_search's two older constructors left the length range empty or read unset flags"),
 ("P13", "repeated some rotations", "searches output some touches twice and lost others, judging rotations wrongly"),
 ("P13", "ignored falseness that moves the treble", "basic_search found false touches where the treble moves"),
 ("P13", "ignored odd falseness when a part end", "table_search found false touches with odd part ends"),
 ("P13", "touches of leads that repeat a row", "searches found touches of leads that repeat a row"),
 ("P13", "against their own other parts", "table_search found parts with a lead false against itself in another part"),
 ("P14", "matching a pattern read past the end", "matching patterns as long as the row read past the row's end"),
 ("P14", "stars that match no bells", "patterns with stars matching no bells, or late in long rows, did not match"),
 ("P14", "counted a row once for each way", "music counted a row several times for one pattern"),
 ("P14", "clearing music left", "music::clear left the patterns behind"),
 ("P14", "left music matching the old number", "music::set_bells left stars matching the old number of bells"),
 ("P14", "with a plus sign", "scores with a plus sign were refused"),
 ("P14", "count of rows matching a pattern", "row_wildcard::count was wrong for several stars, repeated bells and patterns too long"),
 ("P15", "start of an empty name", "stripping a name that was only a class or stage read before its start"),
 ("P15", "from the end of a name that also contains it", "litelib names containing the class or stage twice were not stripped"),
 ("P15", "byte order mark each time", "litelib files with a byte order mark were misread on every pass"),
 ("P15", "number of bells in the file name", "mslib ignored the number of bells in the file name"),
 ("P15", "when the table has no tower bell column", "cclib lost handbell peals in tables without tower bell peals"),
 ("P15", "reference of a wrapped entry", "cclib gave wrapped entries the wrong reference"),
 ("P15", "class of the table from base names", "cclib base names kept the class, giving 'X Surprise Surprise Minor'"),
 ("P15", "earlier table held plain methods", "cclib stripped 'Bob' from names in tables after a plain one"),
 ("P15", "still good after it has been read", "litelib was not good once read, so dir and mdir listed nothing"),
 ("P15", "blank lines in files with carriage returns", "litelib read a blank CRLF line as an entry"),
 ("P15", "whole of Treble Bob and Treble Place", "litelib stripped only 'Bob' of 'Treble Bob'"),
 ("P15", "dot in a directory name", "mslib took the bells from a directory name with a dot"),
 ("P16", "standard output when given no file name", "XML output given no file name was lost"),
 ("P16", "text in CDATA sections", "text in CDATA sections was not read"),
 ("P16", "location of a peal from the peal", "locations of first peals were looked for in the method"),
 ("P16", "first handbell peal as that kind", "first handbell peals were returned as a facet of the wrong type"),
 ("P16", "collection with no method sets", "a collection without method sets crashed the reader"),
 ("P16", "without the blanks between", "cclib notation kept its padding, so lightweight output of it could not be read"),
 ("P19", "make the arithmetic operators left associative", "5 - 2 - 1 was 4, and the like for the other operators"),
 ("P18", "read the upper end of the range in a rows statement", "'A to B rows' was always refused"),
 ("P19", "let the at function give the bell in the last place", "at() of the last place was refused"),
 ("P19", "make the crus function match combination roll-ups", "crus() matched runs"),
 ("P19", "report division by zero instead of crashing", "dividing by zero crashed gsiril"),
 ("P19", "expand escapes in the strings of echo", "escapes in echoed strings were printed unexpanded"),
 ("P18", "honour a suppressed new line at the end of a list", "the backslash at the end of a list's last string was ignored"),
 ("P18", "define the expected length's limits when only one", "min_length and max_length were left over or missing when a length has only one limit"),
 ("P18", "allow a rounds statement to leave out bells", "a rounds statement with a row on fewer bells made every touch come round wrongly"),
 ("P19", "print nothing for a row which does not match", "blank lines were printed for rows that do not match the row mask"),
 ("P20", "count each node once so that odd node limits", "nodes were counted twice at a time, so odd node limits were never reached"),
 ("P18", "report a conflict only for rows which are repeated too", "once a touch was false every later row was reported as a conflict"),
 ("P20", "let -P prove the first symbol as it is finally", "-P proved the first value of a symbol redefined later"),
 ("P20", "let a false touch in a -m module decide", "a false touch in a -m module did not affect the exit status"),
 ("P20", "restore the number of bells after a -m module", "the number of bells set by a -m module overrode the one given"),
 ("P21", "prove the leads of -P methods like any others", "-G1 -s -P ended in an assertion failure"),
 ("P21", "find the lead-end change whatever the length of a division", "with -G2 or more -y also restricted the lead-end change"),
 ("P21", "check -P in divisions completed by rotational symmetry", "-P was not applied to divisions completed by rotational symmetry"),
 ("P21", "apply -p to places completed by symmetry", "-p allowed longer places completed by symmetry"),
 ("P21", "apply a mask to every change of a principle", "masks of principles were ignored after the first change"),
 ("P21", "check the rotational symmetry of short leads and principles", "-k listed principles and short leads without rotational symmetry"),
 ("P21", "refuse -Fe where it is not implemented", "-Fe ended in an assertion failure for principles and little methods"),
 ("P21", "check the changes copied to make a method symmetric", "changes copied to complete a symmetric method were not checked against -w, -Fx and masks"),
 ("P22", "restart the sets within a set and in an exponent", "nested sets, and sets on the right of ^, were gone through only once when combined with another set"),
 ("P22", "do not stop at an empty difference in a set", "a set ended at an empty difference in it"),
 ("P22", "do not mistake a file not yet opened for standard", "a file not yet opened was taken for standard input, mixing up the order of evaluation"),
 ("P22", "parse negative powers", "a negative power was refused"),
 ("P22", "allow for omitted tenors in the difference", "a difference took rows with and without their tenors for different rows"),
 ("P22", "rowcalc: report a file that cannot be read", "rowcalc aborted when a file could not be read"),
 ("P22", "methsearch: report a file that cannot be read", "methsearch aborted when a file in -Fr, -FP or music could not be read"),
 ("P22", "read the last row of a file which does not end", "the last row of a file without a final new line was refused"),
 ("P22", "allow an empty difference to be subtracted", "subtracting an empty difference gave nothing"),
 ("P23", "allow for part ends which move the treble", "a search for touches in parts whose part end moves the treble aborted"),
 ("P23", "touchsearch -a: keep to the maximum length", "touchsearch -a printed touches longer than the maximum length"),
 ("P23", "do not use an in-course table for plans with odd", "touchsearch -a gave wrong touches or aborted when a lead end or a lead head in the plan was odd"),
 ("P23", "allow plans and calls which move the treble", "touchsearch -a printed touches that do not come round when a call or method moves the treble"),
 ("P23", "no comma before the first lead", "touchsearch -g printed a comma before the first lead"),
 ("P23", "refuse a part end on too many bells", "touchsearch accepted a part end on more bells than the method"),
 ("P23", "read lead heads on other numbers of bells", "touchsearch -a aborted on a lead head given on another number of bells"),
    ("P24", "report a mask which is too long", "methsearch -b4 -U0 -n2 '-m&??,*': the error was a raw 'vector::_M_fill_insert', because the length was compared as an unsigned number"),
    ("P24", "refuse an empty symmetric block in a mask", "methsearch '-m&,*' read before the beginning of an empty array"),
    ("P24", "do not mix the alternatives for a change in a mask", "methsearch -b6 '-m??(X|1256)*' also listed methods with 12 and 56, the work of one alternative above the treble with that of the other below it"),
    ("P24", "only refuse a mask as inconsistent when no changes are common", "methsearch -b4 -s -m34?????'(34|X)'? was refused although 18 methods satisfy it"),
    ("P24", "apply --limit to --invert-filter", "methsearch -I --invert-filter --limit=1 passed every remaining method once the limit was reached"),
    ("P24", "start at the method given to --start-at in symmetric searches", "methsearch -b4 -s --start-at=X.14.X.1234.X.14.X.12 missed methods after it, the changes copied by symmetry not being counted"),
    ("P24", "apply --row-match to the first row", "methsearch --row-match=0=*1 listed methods whose first row is rounds"),
    ("P24", "refuse 3rds and 4ths place delight on other stages", "methsearch -b8 --3rds-place-delight was not refused"),
    ("P24", "report an invalid treble path", "methsearch -Z3-2 failed without any message"),
    ("P24", "keep to the starting row given to -Fs", "methsearch -Fs=2134 -Fr=...: after the first branch the rows were reckoned from rounds"),
    ("P24", "compare a mask with its image under the symmetries actually required", "methsearch -b4 -U0 -n4 -k '-m14?1234?', and masks with --floating-sym or dodging twin hunts, were refused although methods satisfy them"),
    ("P24", "do not apply -Fr to the lead head", "methsearch -b6 -Fl -Fr=135264 did not find Plain Bob Minor, contrary to the manual"),
    ("P24", "avoid the rows of -Fr in several extents", "methsearch -FN=2 -Fr=2134 allowed the row once"),
    ("P24", "avoid the rows of -Fr throughout the course of a symmetric method", "methsearch -b5 -U2 -s -Fc -Fr=51243 only avoided the row in the first lead"),
 ("P25", "lacks as an expression error", "a row, change, path or coursing order which a method lacks ended the program or was printed as something else"),
 ("P25", "testing rotational symmetry about a row", "rotational symmetry about a row was claimed for methods without it, as the last changes were not compared"),
 ("P25", "a dollar written as \\x24", "\\x24 in a format began a variable"),
 ("P25", "allow a range of changes in $p", "$1,2p within $[ ] was refused"),
 ("P25", "give each method one number", "$# gave a method several numbers, or suppressed methods none"),
 ("P25", "on each method's own number of bells", "$M in a filter without -b, or on several numbers of bells, crashed or used the wrong number of bells"),
 ("P25", "underwork with no name in the map", "an over- or underwork listed without a name was printed as nothing"),
 ("P26", "a remainder on division by zero is an expression error", "1%0 and the quotient of the least integer by -1 ended the program with a signal"),
 ("P26", "report unmatched brackets in expressions and commands", "unmatched brackets in -Q, $[ ] and $( ) read an empty stack or failed an assertion"),
 ("P26", "as the second argument of ?: without parentheses", "a ? b ? c : d : e was refused"),
 ("P26", "allow brackets in the string literals of an expression", "brackets inside string literals were taken for those of the expression"),
 ("P26", "as values in an expression", "$% in an expression was taken for a variable without a name and ended the program"),
 ("P26", "part of the method on which the search is aborted", "abort printed what came before it in the format"),
 ("P26", "suppress methods from an expression inside a command", "suppress inside a command ran an empty command and displayed the method"),
 ("P26", "allow suppress and abort in -H", "suppress or abort in -H ended the program when a second method was found, and commands in -H were run again and again"),
 ("P27", "count the strokes of -M leads", "with -Mlead and the half-lead options the scores for handstrokes were given to backstrokes"),
 ("P27", "all the rows of the previous one", "-Mlead=<34562> -Mhalflead used only the last row of the first option for the second"),
 ("P27", "an unknown named pattern in --row-match", "--row-match=2='<foo>' ended the program with an uncaught exception"),
 ("P30", "number the first page of a landscape", "psline -L: the first page had a label but no ordinal in %%Page, so the document was not structured PostScript"),
 ("P30", "end the line before %%EOF", "psline -n without a title: %%DocumentNeededResources and %%EOF were on one line"),
 ("P30", "as three octal digits in PostScript and PDF", "psline -t with a byte above 127 or a control character wrote '\\ 1' or a negative number into the string"),
 ("P30", "draw no rule before the first one asked for", "psline -r5,2 also drew rules after rows 1 and 3"),
 ("P30", "with leads of one or two changes", "psline of a method with one change to the lead missed the numbers of every lead head, and with two changes the calling positions"),
 ("P30", "at the end of a last column which is not full", "psline -mcolumn missed the numbers at the end of the last column when it was not full"),
 ("P30", "when -x or -y is given without -F", "psline -x8pt (or -y) divided by zero"),
 ("P30", "more than two numbers in psline -r", "psline -r1,2,3 took the last two numbers"),
 ("P30", "make psline -b without an argument", "psline -b with lines for several working bells drew no place bells"),
 ("P30", "an EPS file of more than one page", "psline -e wrote several pages, which EPS does not allow"),
 ("P30", "which are not positive in psline", "psline -I-1 and the like never ended, or were taken as very large numbers"),
 ("P30", "a number of bells which is not a number in printmethod", "printmethod x:x.16 ended with an uncaught exception"),
 ("P31", "leave a debugging message out of splices", "splices wrote 'Got N' to standard error for every pair"),
 ("P31", "bracket lead splices in splices -g when -l", "splices -g -l3: methods with lead splices were not bracketed, as they are without -l"),
 ("P31", "print only methods in splices -I", "splices -I printed the splices between the methods, and with --rows-file no methods at all"),
 ("P31", "stop splices counting forever", "splices -o -h of two methods with nothing false out of course, and splices -b2, never ended"),
 ("P32", "do not let a lead be false with its own images", "spliceplan -P printed plans in which a lead is false with its own image in another part, e.g. -b5 -i -P12453 -P13254 of 345.3.5.145.125.5.125.3.5.3.125.5.125.145.5.3.345.1"),
 ("P32", "report errors in the methods given to spliceplan", "spliceplan aborted on a bad place notation, on a method whose lead end moves the treble, and with -i on one whose lead end is out of course"),
 ("P32", "refuse unusable part-ends in spliceplan", "spliceplan -P with a row that moves the treble, is on more bells, is no row or (with -i) is out of course aborted"),
 ("P32", "fail if spliceplan cannot write", "spliceplan -O to a directory that does not exist said nothing and wrote nothing, with status 0"),
 ("P33", "report a response file that cannot be read", "any program given @directory aborted with bad_alloc; a response file that is not seekable was taken for an argument"),
 ("P34", "require the leads asked for in fextent -r", "fextent -r1423 required another lead, -r2134 aborted, and some -r made it loop for ever"),
 ("P34", "refuse unusable part-ends in fextent", "fextent -P2134, -P12354 on four bells and -i with an odd part-end aborted or gave false sets"),
 ("P34", "refuse fextent -t without whole courses", "fextent -b8 -t aborted unless -c was given"),
 ("P34", "let fextent -c search methods with false courses", "fextent -c refused nearly every method as not commuting with the post group"),
 ("P34", "refuse leads required in fextent that are false", "fextent with -P and an -r lead false with itself in another part aborted or dropped the lead"),
 ("P36", "write the sample rate in ringmethod's header correctly", "the WAV header of ringmethod gave a wrong rate, 61504 for 8000"),
 ("P36", "accept a deviation in ringmethod -o", "ringmethod -o1=,0.3 was refused as an invalid deviation"),
 ("P36", "give the tenor its frequency in ringmethod on multiples of seven bells", "ringmethod on 7, 14 ... bells sounded an octave high"),
 ("P36", "ring nothing in ringmethod if there are no rows", "ringmethod without rows rang a round of bells"),
 ("P36", "do not wait for ever in ringmethod for a bell", "ringmethod -b4 -o4=-1.3 never ended, as a bell due before the previous row had ended was never struck"),
 ("P36", "refuse rows on more bells than there are in ringmethod", "ringmethod aborted on a row on more bells than -b"),
 ("P36", "refuse unusable arguments in ringmethod", "ringmethod -b0, -r1, -d-1 and others aborted"),
 ("P37", "let musgrep match on as many bells as there are symbols", "musgrep -b33 was refused although there are 33 symbols, whatever the symbols"),
 ("P37", "recognise the treble in either case in row expressions", "rowcalc read a row beginning with the treble in the other case as a name when the symbols are letters"),
 ("P37", "use the symbols in force in touchsearch's default call", "touchsearch aborted or used other calls by default when BELL_SYMBOLS was set"),
 ("P37", "find lead head codes and falseness groups whatever the symbols in use", "methsearch's lead head codes and falseness groups were lost, or it aborted, when BELL_SYMBOLS was set"),
 ("P37", "use the symbols in force in methsearch's limited lead-ends and old lead head codes", "methsearch -e, -E and $D aborted when BELL_SYMBOLS was set"),
 ("P37", "use the symbols in force in methsearch's old lead head codes on five bells", "methsearch $D aborted on five bells when BELL_SYMBOLS was set"),
 ("P37", "use the symbols in force in fextent's default call", "fextent aborted or used another call by default when BELL_SYMBOLS was set"),
]
KNOWN = [
 dict(property="P21", section="first_row", category="first-row", case="-b4 -U1 -A 34.14.12.14.12.14.X.12", what="methsearch does not prove the first row of a lead, so 34.14.12.14.12.14.X.12, whose lead end is rounds, is listed as having a true lead (the test suite relies on it)"),
 dict(property="P21", section="first_row", category="first-row", case="-b4 -U1 -A 34.14.12.14.12.14.X.14", what="methsearch does not prove the first row of a lead, so 34.14.12.14.12.14.X.14, whose lead end is rounds, is listed as having a true lead (the test suite relies on it)"),
 dict(property="P21", section="first_row", category="first-row", case="-b4 -U1 -A X.14.12.14.12.14.34.12", what="methsearch does not prove the first row of a lead, so X.14.12.14.12.14.34.12, whose lead end is rounds, is listed as having a true lead (the test suite relies on it)"),
 dict(property="P21", section="first_row", category="first-row", case="-b4 -U1 -A X.14.12.14.12.14.34.14", what="methsearch does not prove the first row of a lead, so X.14.12.14.12.14.34.14, whose lead end is rounds, is listed as having a true lead (the test suite relies on it)"),
]   # dicts: property, section, category, case, what
