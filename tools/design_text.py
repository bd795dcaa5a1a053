INTRO = """# Design

ringing-lib is a C++ library for change ringing (rows, changes, place notation, methods, groups, multiplication
tables, falseness, proof, touches, searches, music, method libraries) with programs on top of it (gsiril, a touch
prover with its own language; methsearch, a search for methods; touchsearch; rowcalc; and others). Its guarantees are
about mathematics: a search misses nothing, a prover never calls a false touch true, what is written reads back. They
quantify over every row, method, touch, expression or history, where the tests sample a few.

## How model checking decides the properties

Every check is **stateless model checking of the implementation itself**: a harness drives the real code (library
classes, or the real programs as processes) through *every* behaviour within stated bounds and compares each step or
outcome with an independently written reference model. Nothing is sampled, and there is no solver. There is no separate
model whose fidelity must be argued: every execution explored is an execution of the code in /repo's working tree, and
the reference model advances in lock-step with it, so each explored trace is also a conformance replay
(`traces_validated_against_impl` in the evidence counts them).

There are three shapes of exploration:

* **input enumeration**: all inputs of a small scope (all pairs of rows on up to five bells, all strings over an alphabet
  up to a length, all trees of a grammar up to a size);
* **history enumeration**: all sequences of operations up to a depth on an object, with the full observable state
  compared after every operation (pointers, method sets, changes, touches, provers, tables);
* **space enumeration**: for the searches, the model enumerates the *whole* search space independently (every method
  with a given hunt path, every touch as explicit rows) and the program's listing must be exactly the subset that
  satisfies the criteria, for every combination of criteria up to a size.

The library has no threads, no persistent state and no crash recovery, so there are no schedules or crash points to
explore; the "environment" behaviours that exist (the random generator under `random_row`, a reader that stops, files
which cannot be read) are replaced by enumerated ones.

### Framework

* `check.py PROPERTY [--tier quick|thorough] [--section S] [--replay FILE]` builds /repo's current sources (only what
  they and the headers hash to is reused), runs the sections of the property's harness in parallel processes, replays each failure once
  before reporting it, and writes the evidence. Exit 0, or 1 with `VIOLATION property=<id> replay=<path>`.
* `src/vf.h`: sections, cases, expectations; counts of cases, states (inputs or object states visited), transitions
  (comparisons of a step of the implementation with the model) and distinct outcomes. A case which throws, crashes,
  or trips AddressSanitizer or an assertion is a failure of the property.
* `src/ref.h`, `src/refpn.h`, `src/gs.h`: the reference models (permutations as plain vectors, changes as sets of swaps,
  place notation from the documentation, an interpreter for gsiril written from its guide).
* `src/app.h`: runs a program in its own scratch directory with given input, with limits on time and memory.
* `tools/build.py`: library builds under AddressSanitizer with libstdc++ assertions; the programs are built with -O2 and
  assertions. No hooks are needed in /repo, so MANIFEST.json lists none.
* `tools/spec.py` is the source of properties.jsonl, MANIFEST.json and known_findings.json (`tools/gen.py`) and, with
  `tools/design_text.py`, of this file (`tools/design.py`).

Checks judge only what the public API or the program's output shows, never private state or the wording of the code, so
refactorings leave them quiet. Where the documentation leaves a choice, every allowed outcome is accepted.

No property is listed as not applicable: all are claimed and decided by enumeration.
"""

METHOD = {
 "P01": dict(oracle="permutations as plain vectors (`src/ref.h`), extended by fixed points for rows on different numbers of bells."),
 "P02": dict(oracle="a reader and printer of bells and rows written in the harness from the documentation of the symbol sets; text is given in exact-size buffers so that reading past it is caught."),
 "P03": dict(oracle="a change as its set of swaps; edits applied to the set."),
 "P04": dict(oracle="a parser of place notation (`src/refpn.h`) written from the documented grammar; for printing, the printed text must read back by the reference parser to the same changes and meet the option's promise."),
 "P05": dict(oracle="each attribute restated on the paths of the bells (where each bell is in each row), not on the notation; method names by the rules of the Central Council."),
 "P06": dict(oracle="lists of all rows or changes in lexical order made by the model; iterators are walked in both directions from every position."),
 "P07": dict(oracle="naive closure under multiplication; cosets, membership and products by direct comparison of sets of rows."),
 "P08": dict(oracle="definitions (trial division, counting); for random choices the generator is replaced by one which returns each possible value in turn, and every outcome must be hit equally often."),
 "P09": dict(oracle="direct products of rows, looked up modulo the part ends."),
 "P10": dict(oracle="direct comparison of the rows of the two leads, for every possible starting row of the second."),
 "P11": dict(oracle="a multiset of rows with the history of lines."),
 "P12": dict(oracle="flattening the model's tree recursively."),
 "P13": dict(oracle="a depth-first search over explicit rows which rings every part of every touch and has no falseness tables, canonical forms or multiplication tables."),
 "P14": dict(oracle="a matcher which tries every assignment of bells to the elements of the pattern."),
 "P15": dict(oracle="the harness knows the methods from which it wrote the files; line formats restated from their documentation."),
 "P16": dict(oracle="an XML reader in the harness for what is written; the known content for what is read; a list of methods for the method sets."),
 "P17": dict(oracle="a model heap with owners; every object counts its live instances, so leaks, double frees and missed copies show, and AddressSanitizer sees uses after free."),
 "P18": dict(oracle="an interpreter of the touch language (`src/gs.h`) written from the guide; whole output and exit status are compared."),
 "P19": dict(oracle="evaluators written from the guide for arithmetic, logic, strings, patterns, statements."),
 "P20": dict(oracle="equivalence of the option with the statement the guide says it stands for, and the interpreter of P18 for limits, modules and filters."),
 "P21": dict(oracle="every method with the given bells, hunts and lead length is generated from the definition of a change and of the treble's path, and each criterion is a predicate on its rows; the listing must be exactly the methods that satisfy it."),
 "P22": dict(oracle="a recursive evaluator of sets of rows (all combinations of members)."),
 "P23": dict(oracle="as P13, and for plans a search over the plan's leads; printed text is rebuilt from the calls."),
 "P24": dict(oracle="as P21, with masks read by an independent evaluator that works out, position by position, which changes (or which work above and below the hunts) a mask allows; filters, starting points, limits and counts are judged against the listing of the same search without them."),
 "P25": dict(oracle="each property of a method is computed by an independent reference (src/refmeth.h) from its changes, notation is read back by an independent parser, and formats are expanded by an independent reader of the manual's syntax; methods are piped through the program in one batch and each line of its output is compared."),
 "P26": dict(oracle="every expression is read and evaluated by an independent parser and evaluator written from the manual's tables of operators, conversions and rules for short circuits; commands leave a trace that is compared with the one the evaluator predicts; searches with -Q, suppress and abort are compared with the full listing of the same search filtered by a reference of each method."),
 "P27": dict(oracle="the score of each method is computed from its rows by an independent matcher of patterns and named rows, over blocks and strokes laid out from the manual's definitions; every option sequence is parsed into batches by an independent reader."),
 "P28": dict(oracle="the rows are enumerated from their definition, and each row of the input is matched and scored by an independent matcher."),
 "P29": dict(oracle="the entries of the libraries, written for the purpose with known titles, are selected by an independent reading of the options; the notation printed is read back and compared change by change."),
 "P30": dict(oracle="the PostScript is executed by a small interpreter and the PDF content streams read, giving the strings, segments, circles and boxes of each page; the picture expected is reckoned from the rows of an independent model in units of the spacing, the place of the columns is searched for, and the two must match element for element, nothing left over. An element list, not bytes, is compared, so any way of drawing the same picture is accepted."),
 "P31": dict(oracle="the false lead heads are the products of the rows of the leads of an independent model, the group their closure by breadth-first multiplication; the pairs, groups and filtered methods are worked out from those and compared as sets of lines."),
 "P32": dict(oracle="the set of all plans is found by a separate exact-cover search over sets of rows: the leads and their images under the part-ends that are disjoint, chosen until every row with the treble leading is in one; the lines printed, the rotation classes and the files written are compared with it."),
 "P33": dict(oracle="a separate reading of the rules of options, and a separate splitter of response files, is run on the same words and the values set are compared; the programs' own lists of options are read from their --help."),
 "P36": dict(oracle="the program's own main() runs in the explorer with the function that gives normally distributed errors replaced by a choice of early, right or late, followed depth-first; every sample written is compared with the closed form of the five damped partials of each bell since its last blow, at times computed from the row, the place, the offset and the choice."),
 "P37": dict(oracle="the same question is put to each program in the usual symbols and in each other set, both as an ordinary run of the program; the first answer with its symbols replaced by the others is the oracle for the second, and which parts of each answer stand for bells is known from its format."),
 "P34": dict(oracle="the program's own main() runs in the explorer with the two functions that give random numbers replaced by choices, every one of which is followed by depth-first search; the sets printed are checked against false leads found by comparing rows, and the set of all results with those of an independent transition system over sets of leads."),
 "P35": dict(oracle="the programs are built together with the meaning of their statements, which the reference interpreter of P18 carries out; the output, messages and status are compared."),
}

NOTES = """## Things which are deliberately not judged

Cases where the documentation is silent or the behaviour is the caller's responsibility: lcm(0,0); the end points of
random_uniform; multiplication tables given a product outside the tabulated set; negative repeat counts in touches;
line numbers of a prover from which rows are removed other than last in, first out; which list of wildcard bells is
reported when several fit; lower-case symbol sets in which i and o are ambiguous; non-numeric `N:` prefixes and blank
CRLF lines of library files; finding in a file library while iterating over it; failure to allocate inside the smart
pointers; in gsiril chains of comparisons, `&` chains, `~` over a transposition, `?=` over a symbol defined as nothing,
`break` outside a loop, more than one `/` on a line, and the interactive, verbose, coloured, MicroSiril and Sirilic modes; in
rowcalc the interactive mode and integers in parentheses after `^`; in touchsearch `-R` and the order of the listing.

## False alarms met while building, and what was changed

* Models that were wrong: dividing rows on different numbers of bells (P01), which extents of rotations are canonical (P13),
  the tie between several ways of matching wildcards (P14), gsiril's treatment of spaces within place notation and of rows on
  truth (P18, P19) and methsearch's meaning of a half-lead and of rotational symmetry (P21) were restated after reading the guide again.
* Checks that were too strong: false course heads require only one head per course where the tenor comes home more than
  once in it (P10); line numbers are only required in stack order (P11); the order of listings is not judged (P21, P23).
* An allowed freedom: methsearch proves all the rows of a lead but the first (pinned by the existing tests), see the known
  findings; the main sweeps of P21 accept either treatment of exactly those methods.
"""
OUTRO = """## Limits

Small scopes are complete, large ones are families: rows beyond 7 bells, methods beyond minor and extents beyond minimus
are covered by structured or strided families, named in each property's bounds. An error which needs more bells, a longer
touch or a deeper history than the bounds is not seen. The reference models are trusted; they were written from the
documentation and the mathematics, and disagreements were decided by reading the documentation, not the code.
"""
