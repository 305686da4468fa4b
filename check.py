#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property for /repo's working tree (see DESIGN.md)."""
import sys

from vlib import core, maze, picture, puzzle

HOOK_COMMITS = ["22dd3ceda0bab8eef5706ee4c7efd2d9fe80d994"]
A_RANDOM = ("The library draws its random choices from thread_rng, which cannot be seeded: the mazes observed differ "
            "between runs.")

REG = []  # (id, function, technique, level note, assumptions)


def reg(i, fn, technique, level, assumptions=()):
    REG.append((i, fn, technique, level, list(assumptions)))


T_MAZE = "TLA+ maze generator and maze definitions; TLC model checking plus trace validation of generated mazes"
L_MAZE = ("Design model checked exhaustively on small grids; every maze recorded from the real generator is judged by "
          "TLC against the specification. Sizes and random choices are sampled, not exhausted, on the real code.")
for i, fn in (("C01", maze.c01), ("C02", maze.c02), ("C03", maze.c03)):
    reg(i, fn, T_MAZE, L_MAZE, [A_RANDOM])
reg("C04", maze.c04, "TLA+ maze generator whose reachable mazes TLC shows to be exactly the depth-first trees; trace validation of generated mazes, "
    "and of the sets of mazes, tree stretches and ways observed over many runs, against the sets the specification derives",
    "Both directions are exhaustive in the model on small grids. On the real code the set of mazes of grids up to 9 cells, and beyond that the set "
    "of local stretches and ways, must be the specification's; mazes, threads and processes must differ.",
    [A_RANDOM, "The number of runs makes every element the specification derives certain to occur for practical purposes if choices are free "
     "(expected dozens of times each); a generator that excludes only mazes of large grids by a non-local criterion may be missed."])

T_PIC = ("TLA+ picture specification (display lists, pen state machine) as generator of expected pictures; TLC model checking "
         "of the pen and trace validation of every call")
L_PIC = ("TLC derives what each call must draw and judges the recorded outcome; small pictures are judged pixel by pixel in "
         "TLA+. Inputs are enumerated for small sizes and sampled beyond.")
A_TEXT = "Text is rasterised by the same font library the code uses; what is checked is which text is drawn where and how large."
reg("C05", picture.c05, T_PIC, L_PIC)
reg("C06", picture.c06, T_PIC, L_PIC)
reg("C07", picture.c07, T_PIC, L_PIC, [A_RANDOM])
reg("C08", picture.c08, "TLA+ round-trip specification; exhaustive trace validation of cells and directions over the ways serde reads, sampled mazes",
    "All cells and directions are covered, through text, reader, value tree and sequences; whole mazes are sampled.", [A_RANDOM])
reg("C13", picture.c13, T_PIC, L_PIC, [A_TEXT])
reg("C21", picture.c21, T_PIC, L_PIC, [A_TEXT, "Rules whose numbers fit in the margin, so that nothing is drawn over them."])
reg("C22", picture.c22, T_PIC, L_PIC)
reg("C24", picture.c24, "TLA+ reader of PNG files (chunks, CRC, inflate, filters), model-checked against a TLA+ writer; TLC reads the "
    "recorded files with it and compares the pictures",
    "Files of pictures up to 6000 bytes are read bit by bit in TLA+; larger ones by the image library's decoder. Pictures are sampled by kind.",
    ["For larger pictures the PNG decoder of the image library is trusted."])

T_SUD = ("TLA+ sudoku and exact-cover specification; TLC model checking of the search on 4x4 sudokus and trace validation of "
         "recorded calls against it")
L_SUD = ("Every recorded call is judged by TLC: solutions by definition, refusals by an exhaustive search in the specification or a "
         "refutation it verifies. "
         "The 9x9 inputs are sampled by kind; the search design is checked on all 4x4 puzzles with few givens.")
T_NON = ("TLA+ nonogram specification (definition, line automaton, solver state machine); TLC model checking and trace validation "
         "of recorded calls")
L_NON = ("Small puzzles are enumerated, larger ones sampled by kind; TLC judges each recorded call, refusals by exhaustive search over "
         "fillings or by exact line closure and search in the specification.")
A_EASY = "Unsolvable puzzles whose refutation needs more than about 2600 search nodes (thorough: 20000) are left out."
reg("C09", puzzle.c09, T_SUD, L_SUD, [A_EASY])
reg("C10", puzzle.c10, T_SUD, L_SUD, [A_EASY])
reg("C11", puzzle.c11, "TLA+ specification of refusals; trace validation of recorded calls", "Lengths and entries are enumerated and sampled.")
T_PARSE = "TLA+ parser as state machine and as grammar, proved equal by TLC on all short texts; trace validation of recorded calls"
L_PARSE = "Short texts are enumerated, longer ones sampled; every recorded result must be the one the grammar gives."
reg("C12", puzzle.c12, T_PARSE, L_PARSE)
reg("C20", puzzle.c20, T_PARSE, L_PARSE, ["The bound is below usize::MAX. Whether a leading plus sign is tolerated is left open."])
T_DLX = ("TLA+ pointer-level model of dancing links with allocation and release, model-checked by TLC; trace validation of calls "
         "recorded under a fencing allocator")
L_DLX = ("The pointer model is exhaustive for small matrices. On the real code every allocation and release is recorded and judged; "
         "an access to released memory or beyond a block ends the process and is reported. Inputs are sampled by kind.")
A_FENCE = "Reads of memory that is allocated but not initialised are not detected."
reg("C14", puzzle.c14, T_DLX, L_DLX, [A_FENCE, A_EASY])
reg("C15", puzzle.c15, T_DLX, L_DLX, [A_FENCE])
reg("C16", puzzle.c16, "TLA+ union-find state machine refined against its partition, model-checked by TLC; trace validation of recorded operation sequences",
    "All short union sequences on up to four elements are replayed; longer ones are sampled, and chains and tournaments up to a million elements.")
reg("C17", puzzle.c17, T_NON, L_NON)
reg("C18", puzzle.c18, T_NON, L_NON)
reg("C19", puzzle.c19, T_NON, L_NON)
reg("C23", puzzle.c23, T_NON, L_NON)
reg("C25", puzzle.c25, "TLA+ specification of calls as a function of their arguments; trace validation of repeated, reordered and concurrent calls",
    "Each call is also made alone in a process of its own; families of calls differ in one argument. Interleavings are those the scheduler "
    "produces; orders and repetitions are random.", [A_RANDOM])

PROPS = {i: (fn, a) for (i, fn, _, _, a) in REG}
TECHNIQUE = {i: t for (i, _, t, _, _) in REG}
LEVEL = {i: n for (i, _, _, n, _) in REG}
NOT_APPLICABLE = {}

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        sys.exit(core.setup())
    sys.exit(core.main(PROPS, sys.argv))
