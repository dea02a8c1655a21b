"""What the properties say and how each is checked. tools/gen_meta.py writes properties.jsonl and
MANIFEST.json from this; check.py reads `groups`, `kind`, `rule`, `probes`, `assumptions`."""

A = "cubing_core/src/alg/"
K = "cubing_core/src/kpuzzle/"
P = "cubing_core/src/kpuzzle/packed/"


def m(name, where):
    return {"name": name, "where": where}


TRUST = "The reference models in harness/src/model_alg.rs and harness/src/model_puzzle.rs, which share no code with the library."

PROPS = {
    "A01": dict(
        title="Parsing any text terminates with a value or an error",
        statement=(
            "For every text of any length and any Unicode content, parsing it as an alg, a move or a move without amount "
            "returns either a value or an error: it never panics, overflows an integer, ends the process or fails to finish. "
            "Every error has a message."
        ),
        over=["inputs"],
        text="all Unicode texts, including hostile ones: numbers beyond 32 bits, unbalanced brackets, deep nesting, very long runs",
        why="The tests parse a few dozen well-formed or slightly malformed texts; the guarantee is about all texts.",
        files=[A + "parse.rs", A + "quantum_move.rs", A + "line_comment.rs"],
        mechanism=[m("nom combinators wrapped in all_consuming", A + "parse.rs FromStr for Alg/Move/QuantumMove"),
                   m("number parsing through checked from_str_radix", A + "parse.rs from_natural_number_signed")],
        groups=["alg"], kind="vh", probes=["nest", "deepnest"],
        must_see=["accepted", "rejected"],
        rule="Texts made of random characters, of notation fragments, of mutated valid notation, of nested and of very long repeated notation; "
             "each is parsed by all three entry points under a CPU limit, with overflow checks on (dev) and off (release). "
             "Distinct: by the text. A text nested 20000 deep is parsed in a process of its own.",
        note="Executions with a crash/overflow/CPU-time monitor. Known finding: text nested about 10000 deep overflows the stack.",
        technique="runtime monitoring: hostile-text workload under panic, overflow and CPU-time monitors",
    ),
    "A02": dict(
        title="The parser accepts exactly the notation and gives the value it denotes",
        statement=(
            "A text is accepted as an alg, a move or a move without amount exactly if it belongs to the documented twisty-puzzle notation "
            "(families with optional layer prefix, amounts and primes, groupings, commutators, conjugates, pauses, comments, newlines, "
            "Megaminx, Clock and Square-1 forms), and the value returned is exactly the one its text denotes. "
            "Amounts and layer numbers outside their 32-bit ranges are refused, never truncated."
        ),
        over=["inputs"],
        text="all texts: short texts exhaustively over an alphabet of the notation's characters, longer ones by generation and mutation",
        why="The tests list some accepted and some refused texts; the language and the value of each of its words is a statement about all texts.",
        files=[A + "parse.rs", A + "special_notation.rs"],
        mechanism=[m("grammar of nom parsers", A + "parse.rs"), m("suffix and Square-1 tuple special forms", A + "parse.rs parse_move, parse_square1_tuple_rest")],
        groups=["alg"], kind="vh",
        must_see=["alg:accepted", "alg:rejected", "move:accepted", "move:rejected"],
        rule="Every text up to a length bound over the notation's characters, every short move text, every kind of unit with every suffix in every kind of surroundings, random valid notation (up to 65,540 units, nested up to 130 deep) with its denoted tree, "
             "mutated notation and numbers around the 32-bit bounds; acceptance and value are compared with an independent recursive-descent "
             "parser. Distinct: by the text.",
        note="Executions compared with an independent parser; exhaustive up to a small length, sampled beyond. " + TRUST,
        technique="runtime monitoring: online comparison of every parse with a reference parser",
    ),
    "A03": dict(
        title="Printing an alg gives text that parses back to an equal alg",
        statement=(
            "Whatever alg or move is obtained by parsing, or is built of parts that notation can express, printing it gives text that is accepted "
            "by the parser and parses to an equal value. Printing that value again gives the same text."
        ),
        over=["inputs"],
        text="all algs and moves that notation can express, from parsed text or put together through the public types",
        why="The tests round-trip a handful of texts; special forms interact (comments next to closing brackets, Square-1 tuples with amounts, "
            "Megaminx and Clock suffixes), so it takes all combinations.",
        files=[A + "alg.rs", A + "move.rs", A + "grouping.rs", A + "commutator.rs", A + "conjugate.rs", A + "line_comment.rs", A + "quantum_move.rs", A + "amount.rs"],
        mechanism=[m("Display implementations", A + "*.rs"), m("comment followed by newline before a delimiter", A + "alg.rs fmt_enclosed")],
        groups=["alg"], kind="vh",
        must_see=["exact", "cases:moves"],
        rule="Random trees (small, long, deep; equal parts separate or shared), random accepted texts and all kinds of moves are printed and parsed back, compared structurally through the public "
             "fields (not through the library's equality alone). Distinct: by the printed text.",
        note="Executions over generated algs; the structural comparison is the harness's own.",
        technique="runtime monitoring: print/parse round-trip oracle over generated algs",
    ),
    "A04": dict(
        title="Algs, moves and comments print as canonical notation",
        statement=(
            "Printing follows the canonical notation exactly: amounts as nothing, a number, a prime or both; layer prefixes as n or n-m; "
            "single spaces between units except around newlines; groupings, commutators and conjugates in their brackets; "
            "pauses, comments, Megaminx, Clock and Square-1 forms in their own spelling. "
            "A comment can be made of exactly those texts that contain no newline character."
        ),
        over=["inputs"],
        text="all algs, moves and comment texts",
        why="The tests compare a few printed texts.",
        files=[A + "alg.rs", A + "move.rs", A + "grouping.rs", A + "amount.rs", A + "line_comment.rs", A + "quantum_move.rs"],
        mechanism=[m("fmt_amount", A + "amount.rs"), m("space_between", A + "alg.rs"), m("Display for Move", A + "move.rs")],
        groups=["alg"], kind="vh",
        must_see=["comment refused", "comment made"],
        rule="The printed text of random trees (small, long, deep), of accepted texts, of moves and of their parts is compared byte for byte with a reference printer. "
             "Distinct: by the printed text.",
        note="Executions compared with a reference printer. " + TRUST,
        technique="runtime monitoring: online comparison with a reference printer",
    ),
    "A05": dict(
        title="Inverting an alg gives exactly its structural inverse",
        statement=(
            "Inverting reverses the order of units, negates every move and grouping amount, swaps the two sides of a commutator, inverts the inside of a conjugate, "
            "and leaves pauses, newlines and comments as they are. A plain Square-1 slash is its own inverse, and inverting a Square-1 tuple gives the tuple of the negated turns. "
            "Inverting twice gives an equal alg (unless it holds a Square-1 tuple with an amount of its own), and inverting does not change the original."
        ),
        over=["inputs"],
        text="all algs whose amounts can be negated in 32 bits",
        why="The tests invert a few algs without nesting of the special forms.",
        files=[A + "alg.rs", A + "alg_node.rs", A + "grouping.rs", A + "commutator.rs", A + "conjugate.rs", A + "move.rs"],
        mechanism=[m("invert on every node type", A + "alg_node.rs"), m("Square-1 tuple inversion", A + "grouping.rs square1_tuple")],
        groups=["alg"], kind="vh",
        must_see=["involution checked"],
        rule="Random trees (small, with up to 65,540 units, nested up to 130 deep; equal parts separate or shared), accepted texts and moves are inverted and compared structurally with a reference inverse; involution where it is claimed. "
             "Distinct: by the alg's text.",
        note="Executions compared with a reference inverse. " + TRUST,
        technique="runtime monitoring: online comparison with a reference inverse",
    ),
    "A06": dict(
        title="Building an alg from fragments concatenates exactly those fragments",
        statement=(
            "An alg builder fed any sequence of algs and units, starting empty or from an initial fragment, yields exactly their units in the order pushed: none lost, duplicated, reordered or changed. "
            "The fragments themselves stay as they were."
        ),
        over=["histories"],
        text="all sequences of pushes of algs and single units",
        why="One test builds one alg from a handful of fragments.",
        files=[A + "alg_builder.rs"],
        mechanism=[m("AlgBuilder", A + "alg_builder.rs")],
        groups=["alg"], kind="vh",
        rule="Random push sequences of owned and borrowed algs and nodes; the result is compared with the concatenation the harness kept. The same fragment is pushed again and again, some sequences have more than 65,536 pushes. Distinct: by the sequence.",
        note="Executions compared with a sequential model.",
        technique="runtime monitoring: conservation and order monitor over push histories",
    ),
    "A07": dict(
        title="Algs and moves survive JSON serialization, and only notation deserializes",
        statement=(
            "Serializing an alg, a move or a move without amount gives a JSON string holding its printed notation, and deserializing a JSON string succeeds exactly if the notation parses, with an equal value. "
            "Moves work as keys of JSON maps the same way. JSON values that are no strings, and strings that do not parse, give errors."
        ),
        over=["inputs"],
        text="all algs, moves, texts and JSON values, through serializers that borrow and that own",
        why="The tests serialize a single alg.",
        files=[A + "alg.rs", A + "move.rs", A + "quantum_move.rs"],
        mechanism=[m("Serialize/Deserialize implementations", A + "alg.rs, move.rs, quantum_move.rs")],
        groups=["alg"], kind="vh",
        must_see=["accepted", "rejected"],
        rule="Random short, long and deep algs, moves, texts and other JSON values go through serde_json from text, bytes, readers and values (also as map keys). Distinct: by the text.",
        note="Executions over generated values and JSON.",
        technique="runtime monitoring: serialization round-trip oracle",
    ),
    "A08": dict(
        title="Equality and hashing of algs and moves are structural and agree",
        statement=(
            "Two algs, moves or parts of moves are equal exactly if they have the same structure, whatever way they were made and whether or not they share memory; "
            "equal ones hash equally, so that sets and maps of moves behave like sets and maps of their notation."
        ),
        over=["inputs"],
        text="all pairs of algs and moves, with equal and nearly equal structure",
        why="The tests compare few pairs.",
        files=[A + "move.rs", A + "quantum_move.rs", A + "alg_node.rs"],
        mechanism=[m("derived PartialEq, Eq, Hash", A + "move.rs, quantum_move.rs, alg_node.rs")],
        groups=["alg"], kind="vh",
        must_see=["equal", "different"],
        rule="Pairs of moves and algs, short, long and deep, which are equal but made separately or share parts, or differ in one detail; sets and maps of moves compared with sets of their texts. Distinct: by the pair.",
        note="Executions compared with structural comparison by the harness.",
        technique="runtime monitoring: equality/hash consistency oracle",
    ),
    "K01": dict(
        title="Applying an alg has exactly the effect its meaning prescribes",
        statement=(
            "For every valid puzzle definition and every alg, the transformation it evaluates to, and the pattern it leads to from any pattern, are those obtained by carrying out its moves one by one in order, "
            "with groupings repeated, commutators as A B A' B', conjugates as A B A', and pauses, newlines and comments without effect. "
            "The alg is refused exactly if it uses a move the puzzle does not have, and the error names such a move."
        ),
        over=["inputs", "configurations"],
        text="all puzzle definitions, algs and start patterns, including orientation modulus and indistinguishable pieces",
        why="The tests evaluate about ten algs on the 3x3x3 and 2x2x2.",
        files=[P + "kpuzzle.rs", P + "kpattern.rs", P + "ktransformation.rs"],
        mechanism=[m("transformation_from_alg", P + "kpuzzle.rs"), m("composition", P + "ktransformation.rs apply_transformation_into")],
        groups=["eval"], kind="vh",
        must_see=["evaluated", "refused", "patterns"],
        rule="Random puzzle definitions (1-6 orbits, 1-40 pieces, 1-107 orientations, direct and derived moves) and the shipped ones; random algs with nested "
             "structure, unknown moves, deep nesting and up to 65,540 units at one level; result compared with a reference interpreter that carries out moves one at a time on plain vectors, through "
             "every public way to evaluate. Distinct: by definition and alg.",
        note="Executions compared with a reference interpreter. " + TRUST,
        technique="runtime monitoring: online comparison with a reference interpreter",
    ),
    "K02": dict(
        title="A move resolves to the right definition with the right multiplicity",
        statement=(
            "A move that a puzzle defines, directly or by an alg, has the defined effect; a multiple of a defined single turn has the effect of that many turns, negative ones inverted; "
            "the inverse of a move that is defined only with an amount is that move inverted; any other move does not exist on the puzzle, which is reported by an error that names it. "
            "Where several apply, a definition of the single turn comes first, with direct definitions before derived ones, then the exact move, then its inverse."
        ),
        over=["inputs", "configurations"],
        text="all definitions (single, multiple, inverse, direct, derived, layered, slash) and all looked-up moves",
        why="The tests look up a few moves on two shipped puzzles, which define nearly all moves by their single turn.",
        files=[P + "lookup_move.rs", P + "kpuzzle.rs"],
        mechanism=[m("lookup_move", P + "lookup_move.rs")],
        groups=["eval"], kind="vh",
        rule="Random definitions with overlapping ways to define a family, every nearby move looked up (amounts, prefixes, families); compared with a reference resolution. Distinct: by definition and move.",
        note="Executions compared with a reference resolution. " + TRUST,
        technique="runtime monitoring: online comparison with a reference move resolution",
    ),
    "K03": dict(
        title="Transformations form a group acting on patterns",
        statement=(
            "Composition of a puzzle's transformations is associative, has the identity transformation as its neutral element and the inverse as its two-sided inverse; "
            "applying two transformations one after the other to a pattern equals applying their composition once, and applying a transformation and then its inverse restores the pattern. "
            "Evaluating an inverted alg gives the inverse of evaluating the alg."
        ),
        over=["inputs", "configurations"],
        text="all puzzles, transformations and patterns, including those with orientation modulus and indistinguishable pieces",
        why="The tests check a few compositions on the 3x3x3.",
        files=[P + "ktransformation.rs", P + "kpattern.rs"],
        mechanism=[m("apply_transformation_into", P + "ktransformation.rs, " + P + "kpattern.rs"), m("invert", P + "ktransformation.rs")],
        groups=["eval"], kind="vh",
        must_see=["non-identity", "alg inverses evaluated"],
        rule="Random triples of transformations and patterns of random and shipped puzzles; the laws are checked by comparing entries. Distinct: by the values involved.",
        note="Executions; the laws are their own oracle, entries are read through the data form and the accessors.",
        technique="runtime monitoring: algebraic-law monitors over executions",
    ),
    "K04": dict(
        title="Repetition equals iterated application for every 32-bit amount",
        statement=(
            "A move or grouping with any amount from -2147483647 to 2147483647 has the effect of performing it that many times, its inverse for negative amounts, nothing for zero. "
            "This holds for moves given by transformations, by algs, and for groupings of anything."
        ),
        over=["inputs", "configurations"],
        text="all amounts and all moves and groupings of all puzzles",
        why="The tests use amounts up to about a dozen.",
        files=[P + "ktransformation.rs", P + "kpuzzle.rs"],
        mechanism=[m("self_multiply by repeated squaring", P + "ktransformation.rs")],
        groups=["eval"], kind="vh",
        must_see=["order above 1", "order beyond 32 bits"],
        rule="For random transformations the order is determined by the model and powers are compared for small, boundary, order-related and random 32-bit amounts. Distinct: by transformation and amount.",
        note="Executions compared with modular exponentiation by the model. " + TRUST,
        technique="runtime monitoring: online comparison with iterated application",
    ),
    "K05": dict(
        title="Orientations with a modulus are stored and turned exactly",
        statement=(
            "For every number of orientations that a definition may have and every orientation modulus that divides it, setting a piece's orientation and modulus and reading them back gives the same orientation (reduced by the modulus) and modulus; "
            "turning the piece by any number of steps gives the orientation plus those steps, reduced by the modulus, with the modulus unchanged. "
            "Numbers of orientations that cannot be stored are refused when the puzzle is made."
        ),
        over=["inputs", "configurations"],
        text="all numbers of orientations 0-255, all moduli and all amounts of turning",
        why="One test checks a single puzzle with three moduli.",
        files=[P + "orientation_packer.rs", P + "kpattern.rs", P + "kpuzzle.rs"],
        mechanism=[m("OrientationPacker tables", P + "orientation_packer.rs"), m("default modulus spelled as zero", P + "kpattern.rs")],
        groups=["data"], kind="vh",
        must_see=["supported counts", "unsupported counts"],
        rule="Every number of orientations from 0 to 255; for each supported one every modulus, orientation and turn, exhaustively; further random mixes with permutations. Distinct: by count, modulus, orientation and turn.",
        note="Exhaustive over the finite table space, through the public API; sampled in combination with permutations.",
        technique="runtime monitoring: exhaustive driving of the packing tables against modular arithmetic",
    ),
    "K06": dict(
        title="Patterns and transformations equal their data; equality and hashing agree",
        statement=(
            "A pattern or transformation made from valid data (directly or from JSON) gives back that same data, and making it again from what it gave back gives an equal one. "
            "Two patterns or two transformations of one puzzle are equal exactly if their data are equal, however they were made, and equal patterns hash equally. "
            "Values of a puzzle that has further pieces are never equal to them."
        ),
        over=["inputs", "configurations"],
        text="all valid data of all puzzles, values reached by loading, by setting entries and by transforming",
        why="The tests load one example file.",
        files=[P + "kpattern.rs", P + "ktransformation.rs", P + "packed_orbit_data.rs", K + "definition.rs"],
        mechanism=[m("try_from_data and to_data", P + "kpattern.rs, " + P + "ktransformation.rs"), m("byte-wise equality and hash", P + "packed_orbit_data.rs")],
        groups=["data"], kind="vh",
        must_see=["equal", "different"],
        rule="Random valid data, near-equal pairs and values reached by other routes; data in, data out, equality and hash compared with the data. Puzzles have up to 300 orbits, and each value is also compared with values of the puzzle extended by a further orbit. Distinct: by the data.",
        note="Executions compared with the data itself.",
        technique="runtime monitoring: round-trip and equality/hash oracle",
    ),
    "K07": dict(
        title="Reading and setting one entry touches exactly that entry",
        statement=(
            "Reading an entry of a pattern or transformation gives what was last put there, setting one changes that entry and no other, and clones and other values are never affected by it. "
            "Looking up an orbit by name gives the orbit of exactly that name, or nothing. "
            "Reading or setting an index outside its orbit is refused without changing anything."
        ),
        over=["histories", "configurations"],
        text="all puzzles, orbits, indices (0-255) and sequences of reads and writes on several values",
        why="The tests read a handful of entries.",
        files=[P + "kpattern.rs", P + "ktransformation.rs", P + "packed_orbit_data.rs"],
        mechanism=[m("orbit offsets into packed bytes", P + "kpuzzle.rs try_new"), m("bounds checks", P + "kpattern.rs, " + P + "ktransformation.rs")],
        groups=["data"], kind="vh",
        must_see=["in range", "out of range", "clones compared", "clone_from", "stored values copied"],
        rule="Random sequences of reads and writes on random puzzles with a shadow copy per value; every entry is compared after every write. Orbits of other puzzles are handed in too: refused, or reading and writing the same single entry. Distinct: by the operations.",
        note="Executions compared with shadow copies.",
        technique="runtime monitoring: shadow-state monitor over access histories",
    ),
    "K08": dict(
        title="Buffers and in-place results equal fresh computation",
        statement=(
            "A pattern or transformation buffer that went through any sequence of transformations shows, after each step, exactly what applying them one by one to fresh values gives. "
            "Writing a result into an existing value gives the same as returning a fresh one, whatever the target held before, and leaves the operands unchanged. "
            "Two buffers are equal exactly if their current values are."
        ),
        over=["histories"],
        text="all sequences of transformations, all previous contents of targets",
        why="The tests make one buffer and take a couple of steps.",
        files=[P + "kpattern.rs", P + "ktransformation.rs"],
        mechanism=[m("double buffer with a toggle", P + "kpattern.rs KPatternBuffer, " + P + "ktransformation.rs KTransformationBuffer")],
        groups=["data"], kind="vh",
        must_see=["steps", "buffers equal", "buffers different", "looks into a long history"],
        rule="Random histories of buffer steps, in-place results with dirty targets and comparisons of buffers, against fresh computation and the model; histories of up to 131,100 steps. Distinct: by the history.",
        note="Executions compared with fresh computation and with a sequential model.",
        technique="runtime monitoring: history against a sequential model",
    ),
    "K09": dict(
        title="Derived moves are accepted exactly if they are well founded",
        statement=(
            "Making a puzzle from a definition terminates, and fails exactly if some derived move uses, anywhere in its alg, a move the definition does not provide, "
            "or if derived moves refer to each other in a cycle; the error names the move at fault. "
            "No accepted puzzle recurses endlessly when a move is evaluated."
        ),
        over=["configurations"],
        text="all graphs of derived moves: chains, diamonds, cycles, self-references, references hidden in groupings, commutators and conjugates or under other amounts",
        why="The tests have one missing and two recursive definitions.",
        files=[P + "derived_moves_validator.rs", P + "kpuzzle.rs"],
        mechanism=[m("depth-first search with a stack set", P + "derived_moves_validator.rs")],
        groups=["data"], kind="vh", probes=["chain", "deepchain"],
        must_see=["refused:", "accepted"],
        rule="Random graphs of derived moves of several shapes, with references under several amounts and inside nested nodes; verdict and message compared with a reference validation, every accepted move evaluated. Distinct: by the definition.",
        note="Executions compared with a reference graph search. Known finding: a chain of about 10000 derived moves overflows the stack. " + TRUST,
        technique="runtime monitoring: verdict and termination monitors over generated definitions",
    ),
    "K10": dict(
        title="Malformed puzzle, pattern and transformation data gives an error",
        statement=(
            "Data or JSON that does not describe a valid puzzle definition, a pattern or a transformation of the puzzle at hand (too few entries, missing orbits, two orbits of one name, values out of range, unusable orientation counts or moduli, wrong JSON, JSON that is not UTF-8 or goes on after its end) is refused by an error when it is loaded; "
            "valid data is accepted and loaded as what it says, with entries, orbits and JSON members beyond those needed ignored. Neither loading nor anything done afterwards with what was accepted panics, overflows or computes with garbage."
        ),
        over=["inputs", "fault_sequences"],
        text="all data and JSON near valid ones: every entry mutated, removed, added or out of range, and arbitrary JSON",
        why="The tests load well-formed files and two malformed ones.",
        files=[P + "kpuzzle.rs", P + "kpattern.rs", P + "ktransformation.rs", K + "definition.rs", P + "errors.rs"],
        mechanism=[m("validate_orbit_data", P + "ktransformation.rs"), m("try_from_data", P + "kpattern.rs"), m("try_new", P + "kpuzzle.rs")],
        groups=["data"], kind="vh", probes=["default_pattern"],
        must_see=["refused pattern data", "accepted pattern data", "refused definitions", "accepted definitions", "refused JSON"],
        rule="Valid definitions, pattern data, transformation data and their JSON with one or more faults injected, and untouched ones; verdict and content compared with a reference validation (for JSON, over forms of the harness's own that share nothing with the library's), accepted values are then used. Distinct: by the data.",
        note="Executions with injected faults compared with a reference validation. Known finding: the default pattern of a definition is only validated on use. " + TRUST,
        technique="runtime monitoring: fault-injected data under panic monitors and a reference validator",
    ),
    "K11": dict(
        title="No sequence of safe calls corrupts memory",
        statement=(
            "Whatever sequence of safe API calls a program makes (making puzzles, patterns and transformations of any shape, reading and setting entries at any index, transforming, inverting, buffering, mixing values of different puzzles, cloning, comparing, dropping in any order), "
            "it never reads or writes outside allocated memory, reads uninitialized memory, frees twice or frees with another layout, and memory is released when the last value goes away. "
            "Calls that cannot be carried out are refused."
        ),
        over=["programs", "histories"],
        text="all sequences of safe calls on all puzzles, with hostile indices and values",
        why="The tests never run under a sanitizer and make no calls with mismatched arguments.",
        files=[P + "packed_orbit_data.rs", P + "kpattern.rs", P + "ktransformation.rs", P + "kpuzzle.rs", P + "orientation_packer.rs"],
        mechanism=[m("manual allocation and pointer arithmetic", P + "packed_orbit_data.rs"), m("assert_contains_orbit, assert_same_layout", P + "packed_orbit_data.rs")],
        groups=["memory"], kind="memory",
        must_see=["op:apply", "op:drop", "frees checked", "[Miri] executions"],
        rule="Random programs over the safe API with hostile arguments, run with a checking allocator (red zones, poisoned frees, layout and leak checks) in two build profiles, under AddressSanitizer and, smaller, under Miri. Distinct: by the program.",
        note="Executions under AddressSanitizer, Miri and a checking allocator; no claim about paths not driven.",
        assumptions=["The checking allocator, AddressSanitizer and Miri report what they are documented to report."],
        technique="AddressSanitizer, Miri and a checking allocator under random API programs",
    ),
    "K12": dict(
        title="Values shared between threads stay intact without data races",
        statement=(
            "Puzzles, patterns, transformations and algs can be shared, cloned, used and dropped from several threads at once, and the shipped puzzles can be used for the first time from several threads at once: "
            "there is no data race, no deadlock, and every thread gets the same results as one thread alone would."
        ),
        over=["schedules"],
        text="all interleavings of threads that share, clone, use, hand over and drop values",
        why="The tests are single-threaded.",
        files=[P + "packed_orbit_data.rs", K + "json_macros.rs", P + "kpuzzle.rs", "cubing_core/src/puzzles.rs"],
        mechanism=[m("unsafe impl Send and Sync", P + "packed_orbit_data.rs"), m("lazily initialized statics", K + "json_macros.rs")],
        groups=["memory"], kind="threads",
        must_see=["[TSan]", "[Miri] executions"],
        rule="Threads started together evaluate, apply, clone, hand over and drop shared values with injected yields, under ThreadSanitizer, under Miri with several scheduler seeds and natively; the race for first use is run in many processes. Results are compared with the single-threaded ones. Distinct: by workload case.",
        note="Executions under ThreadSanitizer and Miri's race detector; sampled schedules.",
        assumptions=["ThreadSanitizer (with an instrumented standard library) and Miri report data races among the executed accesses."],
        technique="ThreadSanitizer and Miri race detection under multi-threaded stress",
    ),
    "K13": dict(
        title="The shipped 3x3x3 and 2x2x2 puzzles turn like the real ones",
        statement=(
            "On the shipped 3x3x3 and 2x2x2 puzzles every move (face, wide, slice, rotation, layered) moves exactly those pieces, to the places and into the orientations, that turning the physical cube does, with clockwise and prime as seen on that face; "
            "scrambles keep the cube's invariants (each piece once, orientation sums, permutation parity). "
            "A cube is solved in the default pattern and reached again by undoing a scramble."
        ),
        over=["inputs"],
        text="all moves of the two puzzles, all pairs of them and all algs made of them",
        why="The tests check few moves and algs; a swapped entry in the tables can hide in a move no test uses.",
        files=["cubing_core/src/puzzles/3x3x3.kpuzzle.json", "cubing_core/src/puzzles/2x2x2.kpuzzle.json", "cubing_core/src/puzzles.rs"],
        mechanism=[m("embedded definitions", "cubing_core/src/puzzles/*.kpuzzle.json")],
        groups=["cube"], kind="vh",
        must_see=["turns checked alone", "conservation checked"],
        rule="Every move with several amounts, every pair of moves and random algs and scrambles are applied, and compared with a cube of stickers turned in space by rotation matrices. Distinct: by the alg.",
        note="Executions compared with a geometric sticker model. " + TRUST,
        technique="runtime monitoring: comparison with a geometric cube model",
    ),
    "K14": dict(
        title="A puzzle survives its JSON form and every way of making it agrees",
        statement=(
            "Writing a puzzle's definition as JSON and making a puzzle of that gives a puzzle that behaves the same: same orbits, default pattern, moves, derived moves and refusals. "
            "Making a puzzle from JSON text, from a definition value or from a shared definition gives puzzles that agree, also on which definitions are refused; the definition read back is the one given."
        ),
        over=["configurations"],
        text="all puzzle definitions, with and without optional parts",
        why="The tests make each puzzle in one way only.",
        files=[K + "definition.rs", P + "kpuzzle.rs"],
        mechanism=[m("serde derives on the definition types", K + "definition.rs"), m("try_new, try_from_json, TryFrom", P + "kpuzzle.rs")],
        groups=["data"], kind="vh",
        must_see=["puzzles compared", "moves compared"],
        rule="Random definitions and the shipped ones are serialized, changed in formatting and key order, loaded every way and compared by behaviour. Distinct: by the definition.",
        note="Executions; puzzles compared by definition and behaviour.",
        technique="runtime monitoring: differential comparison of construction routes",
    ),
    "K15": dict(
        title="The cost of parsing, printing and evaluating stays in proportion",
        statement=(
            "The work for parsing and printing grows in proportion to the text (for printing, at most times the depth of nesting), and the work for evaluating an alg in proportion to its written length (with at most logarithmic growth in repeat amounts, no blow-up with nesting of groupings, commutators and conjugates, and however many moves the puzzle defines). "
            "Making a puzzle takes work in proportion to its definition."
        ),
        over=["inputs"],
        text="all texts, algs and definitions of a given size, in growing sizes",
        why="The tests use only tiny inputs.",
        files=[A + "parse.rs", P + "kpuzzle.rs", P + "ktransformation.rs", P + "derived_moves_validator.rs", A + "alg.rs"],
        mechanism=[m("repeated squaring", P + "ktransformation.rs self_multiply"), m("inverting transformations rather than algs", P + "kpuzzle.rs transformation_from_alg_node")],
        groups=["misc"], kind="vh",
        must_see=["times the length", "times the depth"],
        rule="The same shapes at growing length, depth and amount: allocations (counted exactly by the allocator) and CPU time of the larger are compared with the smaller. Distinct: by shape and size.",
        note="Counts of allocations are deterministic; CPU time is only judged against generous bounds and repeated before it counts.",
        technique="runtime monitoring: allocation and CPU-time growth monitors",
    ),
    "K16": dict(
        title="Results depend on the arguments alone, never on the history",
        statement=(
            "Parsing, printing, evaluating, applying and inverting the same arguments give the same results each time, whatever was computed before, in whatever order, on which puzzles, after failures, and after values were dropped. A refusal says the same each time, too. "
            "No operation on one puzzle or value changes what another gives."
        ),
        over=["histories"],
        text="all interleavings of operations on several puzzles, patterns and algs",
        why="The tests do one thing each.",
        files=[P + "kpuzzle.rs", A + "special_notation.rs", "cubing_core/src/puzzles.rs", P + "packed_orbit_data.rs"],
        mechanism=[m("immutable shared puzzle data", P + "kpuzzle.rs"), m("shared Square-1 moves", A + "special_notation.rs")],
        groups=["misc"], kind="vh",
        must_see=["evaluations on an old puzzle", "failures", "evaluations after a drop", "observed again after tens of thousands of operations"],
        rule="Random interleavings of evaluations, parses, failures and drops on several puzzles of similar shape, and tens of thousands of operations of one kind; each result is compared with the reference and with the first time. Distinct: by the history.",
        note="Executions compared with the reference and among each other.",
        technique="runtime monitoring: history monitor for referential transparency",
    ),
    "K17": dict(
        title="Errors say what is wrong and stay usable as errors",
        statement=(
            "Every refusal says what was refused: an unknown move is named, an invalid derived move or a bad orbit in a definition is named, faulty pattern or transformation data is reported as such with the orbit at fault. "
            "Every error prints without panicking, is never its own source, and can be sent to other threads."
        ),
        over=["inputs"],
        text="all refused moves, algs, texts, definitions and data",
        why="The tests look at one message.",
        files=[P + "errors.rs", P + "kpuzzle.rs", A + "parse.rs"],
        mechanism=[m("error types", P + "errors.rs, " + P + "kpuzzle.rs")],
        groups=["misc"], kind="vh",
        must_see=["moves refused", "algs refused", "pattern data refused", "transformation data refused"],
        rule="Refused moves, algs, definitions and data with one known fault each; kind and message are compared with the fault, the source chain is walked, threads carry the errors. Distinct: by the fault.",
        note="Executions; messages are searched for the name at fault, not compared word by word where wording is free.",
        technique="runtime monitoring: error-content monitor over injected faults",
    ),
    "T01": dict(
        title="The alg command accepts exactly the notation and prints exact inverses",
        statement=(
            "Given an alg as argument or on standard input, the command line tool's invert command prints the canonical notation of exactly its inverse and one line break, and its parse command accepts it without printing anything on standard output, both with exit code 0. "
            "Text that is no alg, input that cannot be read and wrong usage end with a nonzero exit code, a message on standard error and nothing on standard output, never with a panic. An inverse that cannot be written ends with a nonzero exit code as well. The completions command prints a script for the command alg for every shell it offers."
        ),
        over=["inputs", "configurations"],
        text="all texts as argument or standard input, all ways of calling",
        why="There are no tests of the tool.",
        files=["alg_cli/main.rs"],
        mechanism=[m("main, alg_from_stdin", "alg_cli/main.rs")],
        groups=["cli"], kind="cli",
        must_see=["accepted", "refused", "unreadable input refused", "wrong usage refused", "unwritable output reported"],
        rule="The real binary is run in both profiles with generated texts as argument and on standard input, with unreadable input, output that cannot be written and wrong usage; output, exit code and standard error are compared with the reference. Distinct: by the call.",
        note="Executions of the real binary compared with reference parser, printer and inverse. " + TRUST,
        technique="runtime monitoring: process-level oracle on the command's output and exit code",
    ),
    "T02": dict(
        title="The macros give what parsing at run time gives",
        statement=(
            "For every text of the notation, the compile-time macros for algs and for moves compile and give a value equal to parsing the same text at run time. "
            "For every text that does not parse, and for arguments other than one string literal, compilation fails with an error at that invocation."
        ),
        over=["inputs"],
        text="all string literals, in every literal spelling",
        why="The tests use two macro calls.",
        files=["cubing_macros/src/lib.rs"],
        mechanism=[m("parse_alg!, parse_move!", "cubing_macros/src/lib.rs")],
        groups=["alg"], kind="macros",
        must_see=["expansions whose value was compared", "invocations refused by the compiler"],
        rule="A crate with hundreds of generated invocations is compiled and run, comparing each value with the reference tree and with run-time parsing; a second crate has only invocations that must be refused, each must get an error of its own. Distinct: by macro and text.",
        note="Compiled and executed invocations compared with run-time parsing and the reference parser.",
        technique="runtime monitoring: generated macro invocations compiled, run and compared",
    ),
    "T03": dict(
        title="Embedded puzzles, patterns and transformations load lazily, once and right",
        statement=(
            "A puzzle, pattern or transformation embedded from a JSON file gives the value that file describes, the very same one on each use, from any thread, in whatever order embedded values are used first and however they depend on each other. Nothing is loaded, and no puzzle expression evaluated, before the first use, nor again after it. "
            "The shipped puzzles are what their files say."
        ),
        over=["schedules", "configurations"],
        text="all orders and interleavings of first uses of embedded values that depend on each other",
        why="The tests use each embedded value once, on one thread.",
        files=[K + "json_macros.rs", "cubing_core/src/puzzles.rs"],
        mechanism=[m("macros expanding to lazily initialized statics", K + "json_macros.rs")],
        groups=["alg"], kind="loaders",
        must_see=["values initialized under a race"],
        rule="A generated crate embeds generated files through the macros in several forms; many processes race for the first uses in random orders; values are compared with the files, addresses with each other, and evaluations of the puzzle expressions are counted. Distinct: by the order of first uses.",
        note="Compiled and executed; sampled schedules.",
        technique="runtime monitoring: racing first uses in many processes with identity and value oracles",
    ),
    "T04": dict(
        title="The f2lfast example prints exactly the solutions within its limits",
        statement=(
            "For a scramble that leaves the cross solved, f2lfast names exactly the slots that are solved, and at each depth asked for prints exactly the solutions within its limits, up to the number asked for: "
            "the sequences of slot triggers, each on a slot not solved yet and after a turn of U or none, with at most --max-depth triggers in all and --max-depth-per-slot in a row that solve no slot, that together with a last turn of U solve the cube. "
            "Every solution printed solves the scramble, its short form stands for its long form, and its link opens that scramble and that solution. "
            "A scramble that leaves no cross or is no alg of the 3x3x3 ends with a nonzero exit code and no solution."
        ),
        over=["inputs", "configurations"],
        text="all scrambles and all limits and options",
        why="There are no tests of the example.",
        files=["cubing/examples/f2lfast/main.rs", "cubing/examples/f2lfast/search.rs", "cubing/examples/f2lfast/patterns.rs", "cubing/examples/f2lfast/triggers.rs", "cubing/examples/f2lfast/twizzle_link.rs"],
        mechanism=[m("search_recursive and the options passed to it", "cubing/examples/f2lfast/search.rs, main.rs"), m("is_slot_solved", "cubing/examples/f2lfast/patterns.rs")],
        groups=["f2l"], kind="example",
        must_see=["solutions", "scrambles without a cross refused", "searches without a solution"],
        rule="The real example is run in both profiles with scrambles a few triggers away from solved (in various notation), with random and with unusable scrambles, and with random limits and options; what it prints is compared with an exhaustive search of the harness's own over the same triggers on a model cube. Distinct: by the call.",
        note="Executions of the real program compared with an independent exhaustive search. Small depths only. " + TRUST,
        technique="runtime monitoring: process-level oracle, an independent exhaustive search",
    ),
}
