From 06a1d994430021f9a0a3162a3cfb43a269d114e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 01/12] fix: forget every row conflicting with a forced row

add_solution only cleared the row pointers reachable through one column of
the chosen row although it frees the rows of all its columns, so a later
conflicting row (e.g. the same digit twice in a sudoku row, but in different
boxes) was read after it had been freed.
---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 7a81f5e..e09e706 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -66,8 +66,10 @@ impl DancingMatrix {
             return Err(DancingLinksError::InvalidRow);
         }
 
-        for node in unsafe { Node::iter_down(Node::header(row)).skip(1) } {
-            self.rows[unsafe { Node::row(node) }] = null_mut();
+        for col in unsafe { Node::iter_right(row) } {
+            for node in unsafe { Node::iter_down(Node::header(col)).skip(1) } {
+                self.rows[unsafe { Node::row(node) }] = null_mut();
+            }
         }
 
         for node in unsafe { Node::iter_right(row) } {
-- 
2.43.0


From 8985f59a9bf564c00752f8d525935e0b77176600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 02/12] fix: do not record a rejected row as part of the
 solution

---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index e09e706..631738c 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -59,13 +59,15 @@ impl DancingMatrix {
             return Err(DancingLinksError::IndexError);
         }
 
-        self.partial_solution.push(row);
-        let row = self.rows[row];
+        let index = row;
+        let row = self.rows[index];
 
         if row.is_null() {
             return Err(DancingLinksError::InvalidRow);
         }
 
+        self.partial_solution.push(index);
+
         for col in unsafe { Node::iter_right(row) } {
             for node in unsafe { Node::iter_down(Node::header(col)).skip(1) } {
                 self.rows[unsafe { Node::row(node) }] = null_mut();
-- 
2.43.0


From 3ba162dcb9ef1e4b083039c35bb2a9422f289e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 03/12] fix: reject sudoku entries above 9 instead of reading
 them as another cell

---
 src/puzzles/sudoku/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/sudoku/mod.rs b/src/puzzles/sudoku/mod.rs
index f1f9509..e21a3ec 100644
--- a/src/puzzles/sudoku/mod.rs
+++ b/src/puzzles/sudoku/mod.rs
@@ -78,6 +78,10 @@ pub fn solve_sudoku(puzzle: &[u8]) -> Result<Vec<u8>, SudokuError> {
             continue;
         }
 
+        if value as usize > GRID_SIZE {
+            return Err(SudokuError::NoSolution);
+        }
+
         let result = matrix.add_solution(index * 9 + (value as usize) - 1);
 
         if matches!(result, Err(DancingLinksError::InvalidRow)) {
-- 
2.43.0


From 49f3a0f8f009cfdb26fc7574a913247049cfb17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 04/12] fix: report vertical steps in the solution of a maze
 one cell wide

---
 src/puzzles/maze/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index dae2c03..6d0c1ac 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -86,14 +86,14 @@ pub fn create_maze(
 
                 let mut solution = Vec::new();
                 while let PathNode::Path(parent) = path_tree[current] {
-                    solution.push(if parent == current + 1 {
-                        MazeDirection::Left
-                    } else if parent == current + width {
+                    solution.push(if parent == current + width {
                         MazeDirection::Up
-                    } else if parent == current - 1 {
-                        MazeDirection::Right
-                    } else {
+                    } else if parent + width == current {
                         MazeDirection::Down
+                    } else if parent == current + 1 {
+                        MazeDirection::Left
+                    } else {
+                        MazeDirection::Right
                     });
 
                     current = parent;
-- 
2.43.0


From 0b971c8f592851a763920c1b4c3fa63ae6603370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 05/12] fix: accept maze solutions that reach the first column,
 first row or exit

The bounds checks were too strict by half a cell or more: every solution that
ends in the bottom row (that is, every solution create_maze returns) was
refused, and so was every step left or up out of the second column or row.
---
 src/puzzles/maze/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 6d0c1ac..50eeff5 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -207,7 +207,7 @@ pub fn print_maze_solution(
                 y += 1;
             }
             MazeDirection::Left => {
-                if x * 10 < 15 || unsolved.height() < y * 10 + 6 {
+                if x < 1 || unsolved.height() < y * 10 + 6 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -218,7 +218,7 @@ pub fn print_maze_solution(
                 x -= 1;
             }
             MazeDirection::Up => {
-                if unsolved.width() < x * 10 + 6 || y * 10 < 15 {
+                if unsolved.width() < x * 10 + 6 || y < 1 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -231,7 +231,7 @@ pub fn print_maze_solution(
         }
     }
 
-    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 16 {
+    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 11 {
         return Err(MazeError::InvalidSolution);
     }
 
-- 
2.43.0


From a85a19451ed55e5d7510260228d860ea8db19e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 06/12] fix: do not overflow when summing the blocks of a
 nonogram rule

---
 src/puzzles/nonogram/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 977a1ec..256b917 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -35,7 +35,7 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
     rules
         .split(';')
         .map(|rule| {
-            let mut size = 0;
+            let mut size: usize = 0;
 
             let values = rule
                 .split(',')
@@ -44,13 +44,13 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
                         .parse::<usize>()
                         .or(Err(NonogramError::InvalidRule(x.into())))?;
 
-                    size += value;
+                    size = size.saturating_add(value);
 
                     Ok(value)
                 })
                 .collect::<Result<Vec<usize>, NonogramError>>()?;
 
-            size += values.len() - 1;
+            size = size.saturating_add(values.len() - 1);
 
             if values.is_empty() || size > bound {
                 return Err(NonogramError::InvalidRuleDimension);
-- 
2.43.0


From 5e0ecf71fd440167d0a1e4d04af74da48b72c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 07/12] fix: report an empty nonogram instead of panicking

---
 src/puzzles/nonogram/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 256b917..6b45cb4 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -72,6 +72,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let width = col.len();
     let height = row.len();
 
+    if width == 0 || height == 0 {
+        return Err(NonogramError::EmptyPuzzle);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0


From 7662983fe682e87aa8c844893ca967c3d469ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 08/12] fix: treat a 0 in a nonogram rule as no block

A line without filled squares is written 0, and the parser accepts it, but the
solver panicked on it.
---
 src/puzzles/nonogram/right_left.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/right_left.rs b/src/puzzles/nonogram/right_left.rs
index f872a6f..e0af651 100644
--- a/src/puzzles/nonogram/right_left.rs
+++ b/src/puzzles/nonogram/right_left.rs
@@ -19,7 +19,7 @@ impl RuleMachine {
     pub fn new(rule: &[usize]) -> Self {
         let mut left_states = vec![Node::Start, Node::End];
 
-        for &value in rule {
+        for &value in rule.iter().filter(|&&value| value != 0) {
             left_states.extend(vec![Node::Fill; value].into_iter());
             left_states.push(Node::Space);
         }
@@ -28,7 +28,7 @@ impl RuleMachine {
 
         let mut right_states = vec![Node::Start, Node::End];
 
-        for &value in rule.iter().rev() {
+        for &value in rule.iter().rev().filter(|&&value| value != 0) {
             right_states.extend(vec![Node::Fill; value].into_iter());
             right_states.push(Node::Space);
         }
-- 
2.43.0


From 7433cbedeb94c12c1ca47abcf75b920816de81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 09/12] fix: search for the squares line solving leaves open in
 a nonogram

The backtracking step was empty, so a puzzle that line solving alone does not
finish was reported as solved with its open squares left unfilled.
---
 src/puzzles/nonogram/mod.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 6b45cb4..7cb1fb9 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -79,7 +79,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-    recursive_backtrack(&mut grid, col, row);
+
+    if !recursive_backtrack(&mut grid, col, row) {
+        return Err(NonogramError::NoSolution);
+    }
 
     Ok(grid
         .iter()
@@ -120,7 +123,27 @@ fn right_left(
     Ok(())
 }
 
-fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) {}
+fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) -> bool {
+    let Some(index) = grid
+        .iter()
+        .position(|square| matches!(square, Square::Blank))
+    else {
+        return true;
+    };
+
+    for guess in [Square::Filled, Square::Blocked] {
+        let mut attempt = grid.to_vec();
+        attempt[index] = guess;
+
+        if right_left(&mut attempt, col, row).is_ok() && recursive_backtrack(&mut attempt, col, row)
+        {
+            grid.clone_from_slice(&attempt);
+            return true;
+        }
+    }
+
+    false
+}
 
 pub fn print_nonogram(
     width: u32,
-- 
2.43.0


From 22dd3ceda0bab8eef5706ee4c7efd2d9fe80d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 10/12] verif: hooks for external verification, guarded by
 cfg(puzzle_verif)

---
 src/lib.rs                  | 10 ++++++++++
 src/puzzles/nonogram/mod.rs | 28 ++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a473200..4348847 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod puzzles;
 mod structures;
 mod util;
@@ -23,3 +25,11 @@ pub fn image_to_png_bytes(image: &RgbBuffer) -> Result<Vec<u8>, ImageError> {
 
     Ok(bytes)
 }
+
+/// Access to internal parts for external verification (only with `--cfg puzzle_verif`)
+#[cfg(puzzle_verif)]
+pub mod verif_hooks {
+    pub use crate::puzzles::nonogram::verif_deduce;
+    pub use crate::structures::dancing_links::{DancingLinksError, DancingMatrix};
+    pub use crate::structures::disjoint_set::DisjointSet;
+}
diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 7cb1fb9..026296b 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -145,6 +145,34 @@ fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize
     false
 }
 
+/// Line solving alone, on a grid of 0 (blank), 1 (filled) and 2 (blocked) squares
+#[cfg(puzzle_verif)]
+pub fn verif_deduce(
+    grid: &[u8],
+    col: &[Vec<usize>],
+    row: &[Vec<usize>],
+) -> Result<Vec<u8>, NonogramError> {
+    let mut squares: Vec<Square> = grid
+        .iter()
+        .map(|square| match square {
+            0 => Square::Blank,
+            1 => Square::Filled,
+            _ => Square::Blocked,
+        })
+        .collect();
+
+    right_left(&mut squares, col, row)?;
+
+    Ok(squares
+        .iter()
+        .map(|square| match square {
+            Square::Blank => 0,
+            Square::Filled => 1,
+            Square::Blocked => 2,
+        })
+        .collect())
+}
+
 pub fn print_nonogram(
     width: u32,
     height: u32,
-- 
2.43.0


From d8d65be52db1ab48268d03ec3111bae59d2741e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 11/12] fix: refuse nonogram overlays too large for an image
 instead of overflowing

---
 src/puzzles/nonogram/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 026296b..1027aa6 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -261,12 +261,12 @@ pub fn print_nonogram_solution(
     mut image: RgbBuffer,
     grid: &[bool],
 ) -> Result<RgbBuffer, NonogramError> {
-    let rule_width = max(150, width * 10);
-    let rule_height = max(150, height * 10);
+    let rule_width = max(150, u64::from(width) * 10);
+    let rule_height = max(150, u64::from(height) * 10);
 
     if grid.len() != width as usize * height as usize
-        || image.width() != width * 50 + rule_width
-        || image.height() != height * 50 + rule_height
+        || u64::from(image.width()) != u64::from(width) * 50 + rule_width
+        || u64::from(image.height()) != u64::from(height) * 50 + rule_height
     {
         return Err(NonogramError::InvalidDimensions);
     }
-- 
2.43.0


From 64c919d58ce1bf4699728c1e86ab3f54fbd5acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 12/12] fix: refuse nonogram rules longer than their line
 before building their automata

---
 src/puzzles/nonogram/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 1027aa6..04dc001 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -97,6 +97,19 @@ fn right_left(
 ) -> Result<(), NonogramError> {
     let width = col.len();
 
+    // A rule with more filled squares than the line has squares cannot be satisfied
+    let too_long = |rules: &[Vec<usize>], length: usize| {
+        rules.iter().any(|rule| {
+            rule.iter()
+                .try_fold(length, |left, &value| left.checked_sub(value))
+                .is_none()
+        })
+    };
+
+    if too_long(col, row.len()) || too_long(row, col.len()) {
+        return Err(NonogramError::NoSolution);
+    }
+
     let col_machines: Vec<RuleMachine> = col.iter().map(|rule| RuleMachine::new(rule)).collect();
     let row_machines: Vec<RuleMachine> = row.iter().map(|rule| RuleMachine::new(rule)).collect();
 
-- 
2.43.0

