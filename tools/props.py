import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
MZ="src/puzzles/maze/mod.rs"; RB="src/puzzles/maze/recursive_backtrack.rs"; DS="src/structures/disjoint_set.rs"; UT="src/util.rs"
SU="src/puzzles/sudoku/mod.rs"; DL="src/structures/dancing_links/mod.rs"; ND="src/structures/dancing_links/node.rs"
NO="src/puzzles/nonogram/mod.rs"; RL="src/puzzles/nonogram/right_left.rs"; LB="src/lib.rs"
p("C01","Every generated maze is perfect",
  "For every width and height of at least 1, maze generation returns exactly width*height cells in row-major order whose open passages connect any two cells by exactly one path (all cells reachable, no loops), and no cell opens through the right-hand border. Generation always terminates without panicking.",
  ["inputs","schedules"],"every grid size (including 1 wide and 1 high) and every sequence of random choices the generator may make",
  "There are no maze tests at all; the generator is random, so any fixed test samples one choice sequence of exponentially many.",
  [MZ,RB,DS,UT],[("visit_next refuses a neighbour already in the same set",RB),("DisjointSet::common_set/union",DS)],
  [("maze","right/down wall flags per cell",RB),("connections","which cells are already connected",RB),("path","stack of cells being visited",RB)],["create_maze return value (MazeNode via serde)"])
p("C02","A maze has one exit, under the farthest bottom-row cell",
  "The border of a generated maze has exactly one opening apart from the entrance at the top-left cell: the bottom side of one cell of the bottom row. No cell of the bottom row is more steps away from the top-left cell than that exit cell.",
  ["inputs","schedules"],"every grid size and every random choice sequence",
  "No maze tests exist; which cell is farthest depends on the random maze.",
  [MZ],[("breadth-first search that opens the last bottom-row cell found",MZ+":create_maze")],[("found_paths","bottom-row cells reached so far",MZ)],["create_maze return value"])
p("C03","The returned maze solution is the path from entrance to exit",
  "Read from its last element to its first, the direction list returned with a maze leads from the top-left cell to the exit cell, each step crossing an open passage inside the grid and visiting no cell twice.",
  ["inputs","schedules"],"every grid size (one-wide and one-high included) and every random choice sequence",
  "No maze tests exist; the path depends on the random maze and on the grid shape (index arithmetic degenerates when the width is 1).",
  [MZ],[("walk back along the search tree, naming each step by index difference",MZ+":create_maze")],[("path_tree","parent of each visited cell",MZ)],["create_maze return value"])
p("C04","The backtracking generator produces exactly the depth-first mazes",
  "Every generated maze is a depth-first tree rooted at the top-left cell: if a wall separates two neighbouring cells, one of them lies on the path from the top-left cell to the other. Conversely every maze of that kind is generated with positive probability.",
  ["inputs","schedules"],"every grid size; for the converse every depth-first maze of the (small) grid",
  "It is a statement about the set of all outcomes of a random process; nothing tests the generator, and the tests of the random pick only look at membership.",
  [RB,UT],[("random choice among the untried directions of the cell on top of the stack",RB),("choose_random",UT)],[("can_visit","untried directions per cell",RB)],["create_maze return value"])
p("C05","The printed maze shows exactly the walls of its cells",
  "Printing width*height cells (both at least 1) gives a (10*width+1) by (10*height+1) image that is black exactly on the left border, on the top border except the 9-pixel gap above the top-left cell, and on the 11-pixel right or bottom edge of each cell that has that wall, and white everywhere else. A cell list of any other length is refused with the invalid-dimensions error.",
  ["inputs"],"every grid size and every wall pattern, not only perfect mazes",
  "No test prints a maze.",
  [MZ],[("wall drawing loops and length check",MZ+":print_maze")],None,["print_maze return value"])
p("C06","The maze solution overlay paints exactly the walked line, or refuses",
  "Overlaying a direction list (read last to first) on an image of at least 6 by 6 pixels paints red exactly the line from the top edge through the centre of the top-left cell, through the centres of the cells walked, and on to the bottom edge of the last cell, leaving every other pixel unchanged. If the walk leaves the image (for a printed maze: the grid) the call returns the invalid-solution error, and an image smaller than 6 by 6 gives the invalid-dimensions error; it never panics and never refuses a walk that stays inside.",
  ["inputs","histories"],"every image size and background and every direction sequence",
  "No test overlays a maze solution; the per-direction bounds checks matter only at the edges of the grid.",
  [MZ],[("per-direction bounds checks and line drawing",MZ+":print_maze_solution")],[("x, y","cell the pen is in",MZ)],["print_maze_solution return value"])
p("C07","A generated maze, printed and overlaid, shows an unobstructed way through",
  "For every generated maze, printing it and overlaying its own solution succeeds, and the red line is one connected line that starts in the gap of the top border, ends in the gap of the bottom border, and covers no pixel that was black in the printed maze. Every other pixel of the printed maze is unchanged.",
  ["inputs","histories","schedules"],"every grid size and every random choice sequence, through the three calls in order",
  "It is a property of the composition of generation, printing and overlay, none of which is tested.",
  [MZ,RB],[("agreement of create_maze, print_maze and print_maze_solution on coordinates and list order",MZ)],None,["image after print_maze and after print_maze_solution"])
p("C08","A maze survives serialisation",
  "Serialising a maze cell or direction and deserialising the result gives back an equal value, for every cell and direction; a cell is represented by its two boolean wall flags named right and down, and a direction by its name (Right, Down, Left, Up). So a maze that was stored and reloaded prints to the same picture, with and without its solution.",
  ["inputs","histories"],"every wall pattern and direction, through store and reload",
  "No test serialises anything.",
  [MZ],[("derived Serialize/Deserialize",MZ)],None,["serde_json text of MazeNode and MazeDirection"])
p("C09","A returned sudoku solution is a correct completion of the givens",
  "Whenever solving an 81-entry puzzle returns a grid, that grid has 81 values from 1 to 9, contains each digit exactly once in every row, column and 3x3 box, and agrees with the puzzle in every non-empty entry.",
  ["inputs"],"every 81-entry puzzle: any number of givens, any position, unique or many solutions",
  "Five uniquely solvable puzzles are tested, out of about 10^81 inputs; none with several solutions or with few or all givens.",
  [SU,DL,ND],[("constraint table",SU+":SUDOKU_CONSTRAINTS"),("exact cover search",DL+":solve_helper"),("forcing givens",DL+":add_solution")],None,["solve_sudoku return value"])
p("C10","A sudoku is reported unsolvable exactly when it has no solution",
  "Solving an 81-entry puzzle with entries 0 to 9 returns the no-solution error if and only if no valid completion exists, whether the givens contradict each other directly (same row, column or box) or only by implication. It always returns, without panicking or crashing.",
  ["inputs"],"every 81-entry puzzle with entries 0-9, solvable or not",
  "One unsolvable puzzle is tested, with no directly contradicting givens; completeness is over all puzzles.",
  [SU,DL,ND],[("exhaustive search with cover/uncover",DL+":solve_helper"),("rejection of a given that conflicts",DL+":add_solution")],[("rows","first node of each row still available, or null",DL)],["solve_sudoku return value"])
p("C11","Malformed sudoku grids are refused",
  "Solving or printing a grid whose length is not 81 returns the invalid-size error carrying that length. Solving a grid with an entry above 9 returns an error, never a grid.",
  ["inputs"],"every length and every entry value 0-255",
  "No test passes a wrong length or an out-of-range entry.",
  [SU],[("length checks and range check",SU)],None,["solve_sudoku and print_sudoku return values"])
p("C12","Sudoku text is parsed exactly",
  "Parsing accepts exactly the strings of 81 ASCII digits and returns their values in order. Any other string is refused: if it contains a character that is not an ASCII digit the error carries the first such character, otherwise the error carries the number of characters.",
  ["inputs"],"every string, including non-ASCII characters",
  "Only six well-formed strings are parsed by the tests; no error case is.",
  [SU],[("to_digit and length check",SU+":parse_sudoku")],None,["parse_sudoku return value"])
p("C13","The printed sudoku shows each entry in its own cell",
  "Printing an 81-entry grid with entries 0 to 9 gives a 900 by 900 image: the black grid lines at every 100 pixels (three pixels wide between boxes) on white, each non-zero entry drawn as its digit in black in the cell of its row and column (Roboto Medium at scale 100, 25 pixels right of and 5 below the cell's corner), and empty entries left blank. What is drawn in a cell depends only on that entry.",
  ["inputs"],"every grid of 81 entries 0-9",
  "Eleven images are compared byte for byte; most (position, digit) pairs occur in some image but the property is over all grids.",
  [SU],[("line loop and text drawing",SU+":print_sudoku")],None,["print_sudoku return value"])
p("C14","Sudoku solving is memory safe",
  "Solving any grid never reads or writes memory that has been freed or was never allocated and never frees anything twice, and everything it allocated apart from the result is released by the time it returns, whether it returns a grid or an error.",
  ["inputs","histories"],"every puzzle of 81 entries, solvable, contradictory or malformed; the allocation/free history of each call",
  "Hand-written linked nodes with raw pointers and manual deallocation; the tests (and the Miri job) run only five puzzles, all without directly contradicting givens.",
  [DL,ND,SU],[("free_chain, Drop",ND+", "+DL),("clearing of stale row pointers",DL+":add_solution")],[("rows","row entry pointers that must not dangle",DL)],["allocator events during solve_sudoku"])
p("C15","The exact-cover engine finds a cover exactly when one exists",
  "For a list of constraints, each a list of distinct row numbers, solving returns row numbers that hit every constraint exactly once and contain every row forced beforehand, and fails if and only if no such selection exists. Forcing a row fails with an out-of-bounds error for a row number above the largest used, and with an invalid-row error, leaving everything else unchanged, for a row that hits no constraint or conflicts with a row forced before; no sequence of these calls touches freed memory, frees twice or leaks.",
  ["inputs","histories"],"every constraint matrix and every sequence of forced rows before solving or dropping",
  "One matrix is tested with two forcing sequences; restoration of links after failed branches, forcing after rejection and release of memory depend on the whole history.",
  [DL,ND],[("cover_column/uncover_column restore links exactly",ND),("add_solution",DL),("solve_helper",DL)],[("links","toroidal lists, each column header counting its rows",ND),("partial_solution","chosen rows",DL)],["return values of new/add_solution/solve; allocator events"],"re-export of the engine under cfg(puzzle_verif)")
p("C16","The union-find structure represents the equivalence of its unions",
  "After any sequence of operations, two elements are reported as being in the same set if and only if they are linked by a chain of union operations, the representative reported for an element is a member of its set and the same for all members, and queries never change the partition. Any operation naming an element that does not exist reports nothing and changes nothing.",
  ["histories"],"every sequence of with-size, add, find, common-set and union calls",
  "A handful of fixed sequences on at most 10 elements are tested; union by size and path compression interact over long histories.",
  [DS],[("union by size",DS+":union"),("path compression",DS+":find_helper")],[("elements","parent or size of each element",DS)],["return values of find/common_set/union"],"re-export of the structure under cfg(puzzle_verif)")
p("C17","A returned nonogram solution satisfies every rule",
  "Whenever solving column rules and row rules returns squares, there are width*height of them in row-major order and the lengths of the runs of filled squares in every column and every row, in order, are exactly that line's rule (a 0 in a rule means no block).",
  ["inputs"],"every pair of rule lists: uniquely solvable, ambiguous, needing guesses, with empty lines, of any shape",
  "Four puzzles are tested, all of which line reasoning alone completes.",
  [NO,RL],[("leftmost/rightmost placement agreement",RL),("search over undecided squares",NO+":recursive_backtrack")],[("grid","blank/filled/blocked squares",NO)],["solve_nonogram return value"])
p("C18","A nonogram is reported unsolvable exactly when no filling satisfies its rules",
  "For non-empty column and row rule lists, solving returns the no-solution error if and only if no filling of the grid satisfies all rules, however the contradiction arises (line too short, unequal totals, or only by combining lines). It always returns, without panicking.",
  ["inputs"],"every pair of non-empty rule lists with block lengths of the order of the grid",
  "No unsolvable or ambiguous nonogram is tested.",
  [NO,RL],[("find_left fails when a line cannot be completed",RL),("exhaustive search over undecided squares",NO+":recursive_backtrack")],None,["solve_nonogram return value"])
p("C19","Whatever the rule parser accepts, the solver and printer handle",
  "Rule lists obtained by parsing with the matching bound (column rules bounded by the number of rows and vice versa) can always be passed to the solver and the printer: the solver answers with squares or the no-solution error and the printer with an image, never a panic, including rules written 0. Solving with no columns or no rows returns the empty-puzzle error.",
  ["inputs","histories"],"every pair of accepted rule texts with consistent bounds, through parse, solve and print",
  "The tests parse only rules without zeros and never feed parsed output to the solver or printer.",
  [NO,RL],[("zero blocks skipped",RL+":RuleMachine::new"),("empty check",NO+":solve_nonogram")],None,["results of parse_nonogram_rules, solve_nonogram, print_nonogram"])
p("C20","Nonogram rule text is parsed exactly",
  "Rule text is a ';'-separated list of lines, each a ','-separated list of non-negative decimal integers (none above usize::MAX), and an accepted text yields those integers in order. Otherwise the error reported is that of the first bad line: an invalid-rule error carrying the first token in it that is not such an integer, or, if all are, an invalid-dimension error when the listed numbers, a 0 like any other, plus one for each gap between neighbours exceed the bound, however large the numbers; it never panics.",
  ["inputs"],"every string and bound (below the largest representable integer)",
  "Eight well-formed strings are parsed by the tests; no error case, no boundary of the bound and no overflow.",
  [NO],[("split, parse, size check",NO+":parse_nonogram_rules")],None,["parse_nonogram_rules return value"])
p("C21","The printed nonogram shows grid lines and each rule at its line",
  "Printing a nonogram gives an image 50 pixels per square plus margins of the larger of 150 and 10 pixels per column (left) and per row (top): gray lines before each column and row, three pixels wide before every fifth, on white, each column's numbers stacked above that column (from 10 pixels below the top edge, 30 apart, 15 pixels right of the column's line) and each row's numbers, separated by two spaces, on one text line beside that row (10 pixels from the left edge, 10 below the row's line), all in black Roboto Medium at scale 30. A width or height that differs from the number of column or row rules is refused with the invalid-dimensions error.",
  ["inputs"],"every grid size and every rule list",
  "Four puzzles are compared byte for byte, of sizes 2x2, 2x3, 5x5 and 25x25.",
  [NO],[("margin arithmetic, text and line drawing",NO+":print_nonogram")],None,["print_nonogram return value"])
p("C22","The nonogram solution overlay fills exactly the filled squares",
  "Overlaying squares on an image of exactly the size that printing produces for that width and height paints black the 49 by 49 pixel interior of every filled square and changes no other pixel. If the number of squares is not width*height or the image has any other size, the invalid-dimensions error is returned.",
  ["inputs"],"every grid size, square pattern, background image and size mismatch",
  "Four solved puzzles are compared; no mismatch is tested.",
  [NO],[("offset arithmetic and dimension check",NO+":print_nonogram_solution")],None,["print_nonogram_solution return value"])
p("C23","Line reasoning in nonograms is sound",
  "Whatever squares are already marked, line reasoning keeps every mark, only adds marks that hold in every completion of the marked grid that satisfies all rules, and reports no solution only if there is no such completion; a grid it leaves fully marked satisfies every rule.",
  ["inputs","histories"],"every rule list and every partially marked grid",
  "Only four puzzles starting from blank grids are tested; partially marked grids are what the search feeds it.",
  [RL,NO],[("leftmost and rightmost placement of all blocks",RL+":find_left"),("same block or same gap in both",RL+":right_left")],[("left_states","block automaton of a line",RL)],["marks after line reasoning"],"wrapper running line reasoning on a given grid under cfg(puzzle_verif)")
p("C24","PNG export preserves the picture",
  "Exporting an image with both sides at least 1 to PNG yields bytes that decode, as PNG, to an image of the same width, height and pixels; this holds for arbitrary images as well as for those the printers and overlays produce.",
  ["inputs"],"every RGB image with non-zero sides",
  "No test calls the export function.",
  [LB],[("image_to_png_bytes",LB)],None,["decoded bytes of image_to_png_bytes"])
p("C25","Calls are independent of each other",
  "The result of parsing, solving, printing or exporting depends only on its arguments: repeating a call, calling in any order, after failed calls, or from several threads at once gives the same result as a first call on its own, and arguments passed by reference are unchanged. Maze generation running concurrently on several threads still gives valid mazes with valid solutions.",
  ["schedules","histories"],"every order, repetition and concurrent interleaving of calls",
  "Each test makes one call on its own input and compares it with a constant; none repeats a call or shares a thread with failing calls on purpose.",
  [LB,SU,NO,MZ,DL],[("no global mutable state; solver state is local to a call",SU+", "+NO)],None,["return values across repetitions, orders and threads"])
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x) for x in P)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
