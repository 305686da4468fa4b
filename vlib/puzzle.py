"""Checks of parsing, solving and the two engines. The specification (spec/ConformPuzzle) judges; here inputs are made."""
import itertools
import json
import os
import unicodedata

from . import maze, sudoku


def judge(ctx, cases, op, limit=60):
    ev = ctx.run(cases, limit=limit)
    ctx.conform(ev, rename=op, drop=("exp", "bg", "bound", "fence", "full"))


# ------------------------------------------------------------------------------------------------ sudoku
def sudokus(ctx, n):
    """(puzzle, witness or None) pairs: solvable ones of every density and unsolvable ones of every kind."""
    rng = ctx.rng
    res = []
    kinds = {}
    seeds = [sudoku.full(rng) for _ in range(3)]
    for k in range(n):
        g = sudoku.shuffled(rng.choice(seeds), rng)
        for holes in (rng.randint(0, 30), rng.randint(31, 50), rng.randint(51, 64), rng.randint(65, 81)):
            res.append((sudoku.holes(g, holes, rng), g))
        if k % 4 == 0:
            res.append((sudoku.minimal(g, rng), g))
        for how, p, sol in sudoku.unsolvable(rng, g):
            kinds[how if not sol else "solvable after all"] = kinds.get(how if not sol else "solvable after all", 0) + 1
            res.append((p, sol))
    res.append(([0] * 81, seeds[0]))
    for i in rng.sample(range(81), 9):
        p = [0] * 81
        p[i] = rng.randint(1, 9)
        res.append((p, sudoku.solve(p)[0][0]))
    ctx.notes["unsolvable_kinds"] = kinds
    nodes = []
    for n, p, g in sudoku.hard():
        if g is None and n > ctx.n(2600, 20000):
            continue
        nodes.append(n)
        res.append((p, g))
        if g is not None:  # the same in other clothes
            for _ in range(ctx.n(1, 6)):
                q = sudoku.shuffled([10 * a + b for a, b in zip(g, p)], rng, pairs=True)
                res.append(([v % 10 for v in q], [v // 10 for v in q]))
    ctx.notes["search_nodes_of_hard_ones"] = sorted(nodes)
    return res


def solve_cases(ctx, n):
    cases = []
    for p, g in sudokus(ctx, n):
        c = {"op": "solve_sudoku", "p": p}
        if g:
            c["wit"] = g
        else:
            c["ref"] = []
            sudoku.solve(p, trail=c["ref"])
        cases.append(c)
    return cases


def sudoku_design(ctx):
    ctx.model("MCSudoku", ctx.n("MCSudoku_Quick", "MCSudoku_Thorough"))
    ctx.model("MCSudokuCert", ctx.n("MCSudokuCert_Quick", "MCSudokuCert_Thorough"))


def c09(ctx):
    sudoku_design(ctx)
    judge(ctx, solve_cases(ctx, ctx.n(20, 300)), "C09")


def c10(ctx):
    sudoku_design(ctx)
    judge(ctx, solve_cases(ctx, ctx.n(20, 300)), "C10")


def c11(ctx):
    rng = ctx.rng
    solve, pr = [], []
    g = sudoku.full(rng)
    for n in list(range(0, 81, ctx.n(9, 1))) + [80, 82, 83, 90, 162, 729, 1000]:
        for _ in range(ctx.n(1, 3)):
            p = [rng.randint(0, 9) for _ in range(n)]
            solve.append(p)
            pr.append(p)
        solve.append((g * 12)[:n])
        solve.append([0] * n)
        solve.append([rng.choice([0, 10, 255, 128]) for _ in range(n)])
    for v in [10, 11, 12, 17, 18, 19, 27, 81, 82, 90, 91, 99, 100, 127, 128, 254, 255]:
        for i in [0, 1, 8, 9, 40, 72, 79, 80, rng.randrange(81)]:
            for base in ([0] * 81, g, sudoku.holes(g, 50, rng)):
                p = list(base)
                p[i] = v
                solve.append(p)
        p = sudoku.holes(g, 40, rng)
        for i in rng.sample(range(81), 3):
            p[i] = v
        solve.append(p)
    solve += [g, sudoku.holes(g, 30, rng)]
    pr += [g, [0] * 81]
    a = ctx.run([{"op": "solve_sudoku", "p": p} for p in solve])
    b = ctx.run([{"op": "print_sudoku", "p": p, "exp": {"k": "none"}} for p in pr])
    for e in a:
        e["op"] = "C11solve"
    for e in b:
        e["op"] = "C11print"
    ctx.conform(a + b)


ODD = [47, 58, 32, 10, 45, 43, 46, 97, 0, 160, 178, 185, 0x660, 0x663, 0x6F5, 0x966, 0xFF10, 0xFF19, 0x1D7CE, 0x1F600, 0x2460, 127, 0xFEFF]


def c12(ctx):
    ctx.model("MCParsers", ctx.n("MCParsers_Quick", "MCParsers_Thorough"))
    rng = ctx.rng
    texts = [[48 + rng.randint(0, 9) for _ in range(81)] for _ in range(ctx.n(40, 400))]
    texts += [[48 + d] * 81 for d in range(10)]
    for n in list(range(0, 100)) + [161, 162, 163, 243, 810]:
        texts.append([48 + rng.randint(0, 9) for _ in range(n)])
    for n in [1, 2, 40, 80, 81, 82, 100, 162, 163, 170, 256, 257, ctx.rng.randint(300, 1200)]:
        for c in ODD if n < 150 else rng.sample(ODD, 6):
            t = [48 + rng.randint(0, 9) for _ in range(n)]
            t[rng.randrange(n)] = c
            texts.append(t)
            t = list(t)
            t[rng.randrange(n)] = rng.choice(ODD)   # possibly two bad characters: the first counts
            texts.append(t)
            texts.append(t[:n - 1] + [c])
            texts.append([c] + t[:n - 1])
    for _ in range(ctx.n(100, 3000)):
        n = rng.choice([81, 81, 80, 82, rng.randint(0, 120)])
        texts.append([rng.choice(ODD) if rng.random() < 0.03 else 48 + rng.randint(0, 9) for _ in range(n)])
    for c in range(0, 0x250):  # every character of the first blocks, and then some
        texts.append([49] * 80 + [c])
        texts.append(texts[c % 40] + [c])           # a whole puzzle, with one character round it
        texts.append([c] + texts[(c + 7) % 40])
    for _ in range(ctx.n(100, 20000)):
        c = rng.randrange(0x250, rng.choice([0x3000, 0x20000, 0x110000]))
        if not 0xD800 <= c < 0xE000:
            texts.append([50] * 40 + [c] + [51] * 40)
            texts.append(rng.choice([[c] + [52] * 81, [52] * 81 + [c]]))
    nd = [c for c in range(0x250, 0x110000) if unicodedata.category(chr(c)) in ("Nd", "Nl", "No", "Zs", "Zl", "Zp", "Cf")]
    for c in nd if not ctx.quick else rng.sample(nd, 700):
        texts.append(texts[c % 40][:c % 81] + [c] + texts[c % 40][c % 81 + 1:])
    for sep in ("\n", "\r\n", " ", "  ", ",", ", ", "|", ";", "/", "\t", "-", "_", "'", '"', "."):  # the ways people write a grid
        sep = [ord(x) for x in sep]
        g = texts[rng.randrange(40)]
        for k in (1, 3, 9, 27):
            parts = [g[i:i + k] for i in range(0, 81, k)]
            t = [x for q in parts for x in q + sep]
            texts += [t, t[:-len(sep)], sep + t]
        texts += [g + sep, sep + g, sep + g + sep, g + sep + sep, g[:80] + sep, g[:81 - len(sep)] + sep]
    for wrap in ("[]", "()", "{}", '""', "''", "<>", "||"):
        texts.append([ord(wrap[0])] + texts[rng.randrange(40)] + [ord(wrap[1])])
        texts.append([ord(wrap[0])] + texts[rng.randrange(40)][:79] + [ord(wrap[1])])
    for lead in ("0x", "0b", "0o", "+", "-", "#", "~"):
        texts.append([ord(x) for x in lead] + texts[rng.randrange(40)])
        texts.append([ord(x) for x in lead] + texts[rng.randrange(40)][:81 - len(lead)])
    judge(ctx, [{"op": "parse_sudoku", "s": t} for t in texts], "C12")


def c14(ctx):
    ctx.model("MCDancingLinks", ctx.n("MCDancingLinks_Quick", "MCDancingLinks_Thorough"))
    rng = ctx.rng
    ps = [p for p, _ in sudokus(ctx, ctx.n(12, 150))]
    g = sudoku.full(rng)
    for n in (0, 1, 80, 82):
        ps.append([0] * n)
    for v in (10, 82, 255):
        for i in (0, 40, 80):
            p = sudoku.holes(g, 60, rng)
            p[i] = v
            ps.append(p)
    for _ in range(ctx.n(60, 600)):  # arbitrary contents
        d = rng.choice([0.02, 0.05, 0.2, 1])
        ps.append([rng.randint(1, rng.choice([9, 9, 12])) if rng.random() < d else 0 for _ in range(81)])
    full = set(rng.sample(range(len(ps)), ctx.n(6, 20)))
    # arbitrary contents may be hard to refute: such a call may run long without being wrong
    easy = []
    for k, p in enumerate(ps):
        if len(p) == 81 and all(v <= 9 for v in p):
            try:
                sudoku.solve(p, limit=2000)
            except sudoku.Limit:
                continue
        easy.append({"op": "solve_sudoku", "p": p, "fence": True, "full": k in full})
    judge(ctx, easy, "C14", limit=120)


# ------------------------------------------------------------------------------------------------ engines
def c15(ctx):
    if not ctx.hooks():
        return c10(ctx)
    ctx.model("MCDancingLinks", ctx.n("MCDancingLinks_Quick", "MCDancingLinks_Thorough"))
    ctx.model("MCCover", ctx.n("MCCover_Quick", "MCCover_Thorough"))
    rng = ctx.rng
    cases = []

    def add(cons, force, solve=True, wit=None):
        c = {"op": "dlx", "cons": cons, "force": force, "solve": solve, "full": len(cases) % 50 == 0}
        if wit is not None:
            c["wit"] = wit
        cases.append(c)

    # the instances of the design model
    lists = [list(s) for k in range(4) for s in itertools.permutations(range(3), k)]
    small = [list(c) for k in range(4) for c in itertools.product([l for l in lists if l == sorted(l)], repeat=k)]
    for cons in small:
        for force in [[]] + [[r] for r in range(4)]:
            add(cons, force, solve=True)
    pick = [(a, b, c) for a in lists for b in lists for c in lists]
    for (a, b, c) in rng.sample(pick, ctx.n(600, 4096)):
        force = [rng.randrange(4) for _ in range(rng.randint(0, 3))]
        add([a, b, c], force, solve=rng.random() < 0.8)
    # larger ones, with and without a planted cover
    for _ in range(ctx.n(1500, 20000)):
        nc, nr = rng.randint(1, 10), rng.randint(1, 12)
        gap = rng.choice([1, 1, 1, 3])                       # row numbers with gaps: rows that hit nothing
        cons = [set() for _ in range(nc)]
        wit = None
        if rng.random() < 0.6:
            wit = []
            left = list(range(nc))
            rng.shuffle(left)
            while left:
                k = rng.randint(1, len(left))
                r = rng.randrange(nr) * gap
                if r in wit:
                    r = (nr + len(wit)) * gap
                wit.append(r)
                for c in left[:k]:
                    cons[c].add(r)
                left = left[k:]
        dens = rng.choice([0.1, 0.25, 0.5])
        for r in range(nr):
            if wit and r * gap in wit:
                continue
            for c in range(nc):
                if rng.random() < dens:
                    cons[c].add(r * gap)
        lst = []
        for s in cons:
            s = list(s)
            if rng.random() < 0.5:
                rng.shuffle(s)
            else:
                s.sort()
            lst.append(s)
        force = []
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            force.append(rng.choice(wit) if wit and rng.random() < 0.6 else rng.randrange(nr * gap + 3))
        add(lst, force, solve=rng.random() < 0.85, wit=wit)
    judge(ctx, cases, "C15")


def c16(ctx):
    if not ctx.hooks():
        return maze.c01(ctx, "C01")
    ctx.model("UnionFind", ctx.n("UnionFind", "UnionFind_Thorough"))
    rng = ctx.rng
    cases = []

    def op(f, *a):
        return {"f": f, "a": list(a)}

    # every short sequence of unions on few elements, each followed by every query
    for n in (1, 2, 3, 4):
        pairs = [(a, b) for a in range(n) for b in range(n)]
        for k in range(0, 3 if n == 4 else 4):
            seqs = list(itertools.product(pairs, repeat=k))
            if len(seqs) > ctx.n(400, 5000):
                seqs = rng.sample(seqs, ctx.n(400, 5000))
            for s in seqs:
                q = [op("find", x) for x in range(n + 1)] + [op("common", a, b) for a in range(n + 1) for b in range(n + 1)]
                rng.shuffle(q)
                cases.append({"op": "uf", "ops": [op("with_size", n)] + [op("union", a, b) for a, b in s] + q})
    for _ in range(ctx.n(1200, 15000)):
        n = rng.choice([0, 1, 2, 5, 8, 16, 40])
        ops = [op("with_size", n)] if rng.random() < 0.7 or n == 0 else [op("new")] + [op("add") for _ in range(n)]
        if rng.random() < 0.1:
            ops = [op("new")]
            n = 0
        style = rng.choice(["mix", "chain", "tree"])
        for _ in range(rng.randint(1, 60)):
            hi = max(1, n + (2 if rng.random() < 0.2 else 0))
            x, y = rng.randrange(hi), rng.randrange(hi)
            f = rng.choices(["union", "find", "common", "add"], [5, 3, 3, 1])[0]
            if f == "union":
                if style == "chain":
                    y = x + 1
                elif style == "tree":
                    x, y = x & ~1, x | 1
                    if rng.random() < 0.5:
                        x, y = x & ~3, (x & ~3) + 2
                ops.append(op("union", x, y))
            elif f == "find":
                ops.append(op("find", x if rng.random() < 0.95 else rng.choice([n, n + 1, 10**6])))
            elif f == "common":
                ops.append(op("common", x, y))
            else:
                ops.append(op("add"))
                n += 1
        ops += [op("find", x) for x in range(n)] + [op("common", rng.randrange(n + 1), rng.randrange(n + 1)) for _ in range(10)]
        cases.append({"op": "uf", "ops": ops})
    for n in (100, ctx.n(150, 250)):  # deep structures: pairs, then pairs of pairs, ...
        ops = [op("with_size", n)]
        step = 1
        while step < n:
            for x in range(0, n - step, 2 * step):
                ops.append(op("union", x + rng.randrange(min(step, n - x)), x + step + rng.randrange(max(1, min(step, n - x - step)))))
            step *= 2
        q = [op("find", x) for x in range(n)] + [op("common", rng.randrange(n), rng.randrange(n)) for _ in range(n)]
        cases.append({"op": "uf", "ops": ops + q})
    wide = []

    def chain(lo, hi, step=1):
        hi -= (hi - lo) % step
        return {"lo": lo, "hi": hi, "step": step, "down": rng.random() < 0.5, "flip": rng.random() < 0.5}

    def far(n, chains):
        pts = [0, 1, n - 1, n, n + 1, 65535, 65536, 255, 256, n // 2] + [rng.randrange(n) for _ in range(12)]
        for c in chains:
            pts += [c["lo"], c["hi"], c["lo"] + 1, max(0, c["lo"] - 1), c["hi"] + 1]
        pairs = [[rng.choice(pts), rng.choice(pts)] for _ in range(40)] + [[c["lo"], c["hi"]] for c in chains]
        pairs += [[x, x % 65536] for x in pts] + [[x, x % 256] for x in pts]
        rng.shuffle(pairs)
        wide.append({"op": "uf_wide", "n": n, "chains": chains, "common": pairs, "find": rng.sample(pts, min(12, len(pts)))})

    for n in [70000, 140000, ctx.n(1_000_000, 5_000_000)]:
        for down in (False, True):
            for flip in (False, True):
                far(n, [{"lo": 0, "hi": n - 1, "step": 1, "down": down, "flip": flip}])
        far(n, [chain(0, 65535), chain(65536, n - 1)])
        far(n, [chain(0, n - 2, 2), chain(1, n - 1, 2)])
        far(n, [chain(65536 + 5, n - 1, rng.randint(500, 5000)), chain(3, 60000, 777)])
        far(n, [])
        for _ in range(ctx.n(3, 12)):
            far(n, [chain(rng.randrange(n // 2), rng.randrange(n // 2, n), rng.choice([1, 2, 3, 255, 256, 1000, 65536 if n > 131072 else 7])) for _ in range(rng.randint(1, 4))])
    # blocks joined by halves, root to root: trees as deep as they can get, asked from the deepest elements on
    blocks = []
    for n, lv in [(2, 1), (7, 2), (64, 6), (512, 9), (513, 9), (1000, 5), (1024, 10), (5000, 12), (1 << 14, 14), (70000, 16), (70000, 9),
                  (1 << 17, 17)] + ctx.n([], [(1 << 20, 20), (1 << 20, 13), (3_000_000, 21)]):
        for flip in (False, True):
            for first in ("find", "common"):
                deep = [n - 1 - k for k in range(min(n, 40))] + [k for k in range(min(n, 40))]
                deep += [(1 << k) * a - b for k in range(1, lv + 1) for a in (1, 2, 3) for b in (0, 1) if (1 << k) * a - b < n]
                deep += [rng.randrange(n) for _ in range(ctx.n(200, 2000))] + [n, n + 5]
                blocks.append({"op": "uf_blocks", "n": n, "levels": lv, "flip": flip,
                               "common": [[x, rng.choice(deep)] for x in (deep if first == "common" else deep[:40])],
                               "find": deep if first == "find" else deep[:60]})
                if first == "find":
                    blocks[-1]["common"] = []
    judge(ctx, blocks, "C16blocks")
    judge(ctx, wide, "C16wide")
    judge(ctx, cases, "C16")


# ------------------------------------------------------------------------------------------------ nonograms
def runs(line):
    res, r = [], 0
    for v in line:
        if v:
            r += 1
        elif r:
            res.append(r)
            r = 0
    return res + [r] if r else res


def rules_of(g, w, h):
    return [runs(g[x::w]) for x in range(w)], [runs(g[y * w:(y + 1) * w]) for y in range(h)]


def line_rules(n):
    return [list(r) for r in sorted({tuple(runs([k >> i & 1 for i in range(n)])) for k in range(2 ** n)})]


def zeros(rng, rule):
    """The same rule with 0s put in."""
    r = list(rule)
    for _ in range(rng.randint(1, 2)):
        r.insert(rng.randint(0, len(r)), 0)
    return r


def picture(rng, w, h):
    style = rng.choice(["noise", "noise", "blob", "stripes", "diagonal", "sparse"])
    if style == "noise":
        d = rng.choice([0.3, 0.5, 0.6, 0.8])
        return [int(rng.random() < d) for _ in range(w * h)]
    if style == "sparse":
        return [int(rng.random() < 0.12) for _ in range(w * h)]
    if style == "stripes":
        a, b, c = rng.randint(1, 3), rng.randint(1, 3), rng.randint(2, 4)
        return [int((a * x + b * y) % c == 0) for y in range(h) for x in range(w)]
    if style == "diagonal":
        k = list(range(max(w, h)))
        rng.shuffle(k)
        return [int(k[x] == y) for y in range(h) for x in range(w)]
    g = [0] * (w * h)
    for _ in range(rng.randint(1, 3)):
        x0, y0 = rng.randrange(w), rng.randrange(h)
        x1, y1 = rng.randint(x0, w - 1), rng.randint(y0, h - 1)
        for y in range(y0, y1 + 1):
            for x in range(x0, x1 + 1):
                g[y * w + x] ^= 1
    return g


def nonograms(ctx, exhaustive, many):
    rng = ctx.rng
    cases = []

    def add(col, row, wit=None):
        c = {"op": "solve_nonogram", "col": col, "row": row}
        if wit is not None:
            c["wit"] = wit
        cases.append(c)

    # every puzzle of the small sizes (rules that fit; one too long; 0)
    for (w, h) in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]:
        cr = line_rules(h) + [[h + 1], [0], [0, 1]]
        rr = line_rules(w) + [[w + 1], [0], [1, 0]]
        al = list(itertools.product(itertools.product(cr, repeat=w), itertools.product(rr, repeat=h)))
        if len(al) > exhaustive:
            al = rng.sample(al, exhaustive)
        for c, r in al:
            add([list(x) for x in c], [list(x) for x in r])
    for (w, h) in [(2, 3), (3, 2), (3, 3), (1, 5), (5, 1), (2, 4), (4, 2)]:
        al = [line_rules(h)] * w + [line_rules(w)] * h
        total = 1
        for x in al:
            total *= len(x)
        if total <= exhaustive:
            combos = itertools.product(*al)
        else:
            combos = ([rng.choice(x) for x in al] for _ in range(exhaustive))
        for t in combos:
            t = [list(x) for x in t]
            add(t[:w], t[w:])
    # every picture of 3 x 3 and of 4 x 3 has a solution
    for k in range(512):
        g = [k >> i & 1 for i in range(9)]
        add(*rules_of(g, 3, 3), g)
    for k in (rng.sample(range(4096), 400) if ctx.quick else range(4096)):
        g = [k >> i & 1 for i in range(12)]
        add(*rules_of(g, 4, 3), g)
        if not ctx.quick:
            add(*rules_of(g, 3, 4), g)
    # larger pictures
    for _ in range(many):
        w, h = rng.randint(1, 10), rng.randint(1, 10)
        g = picture(rng, w, h)
        col, row = rules_of(g, w, h)
        if rng.random() < 0.3:
            col, row = [zeros(rng, r) if rng.random() < 0.3 else r for r in col], [zeros(rng, r) if rng.random() < 0.3 else r for r in row]
        add(col, row, g)
    for (w, h) in [(20, 15), (15, 20), (25, 5), (5, 25), (1, 30), (30, 1), (30, 20)] * ctx.n(1, 5):
        while True:
            g = [int(rng.random() < 0.75) for _ in range(w * h)]
            col, row = rules_of(g, w, h)
            break
        add(col, row, g)
    for w, h, g in strips(ctx, ctx.n(150, 1500)):
        add(*rules_of(g, w, h), g)
    # nearly right: rules of a picture with something changed that keeps the totals equal or not
    for t in range(many + many // 4):
        w, h = (rng.randint(2, 6), rng.randint(2, 6)) if t < many else (rng.randint(7, 15), rng.randint(7, 15))
        g = picture(rng, w, h) if t < many else [int(rng.random() < rng.choice([0.5, 0.6, 0.7])) for _ in range(w * h)]
        col, row = rules_of(g, w, h)
        for _ in range(rng.randint(1, 2)):
            how = rng.randrange(5)
            a = rng.choice([col, row])
            i, j = rng.randrange(len(a)), rng.randrange(len(a))
            if how == 0:
                a[i], a[j] = a[j], a[i]
            elif how == 1:
                a[i] = list(reversed(a[i]))
            elif how == 2:
                rng.shuffle(a[i])
            elif how == 3 and a[i]:
                k = rng.randrange(len(a[i]))
                a[i] = a[i][:k] + [max(0, a[i][k] + rng.choice([-1, 1]))] + a[i][k + 1:]
            elif a[i] and a[j] and i != j and max(a[i]) > 1:
                k = max(range(len(a[i])), key=lambda t: a[i][t])
                a[i] = a[i][:k] + [a[i][k] - 1] + a[i][k + 1:]
                k = rng.randrange(len(a[j]))
                a[j] = a[j][:k] + [a[j][k] + 1] + a[j][k + 1:]
        add(col, row)
    # totals agree, every line fits, and yet
    for _ in range(many // 2):
        w, h = rng.randint(2, 6), rng.randint(2, 6)
        cr, rr = line_rules(h), line_rules(w)
        for _t in range(200):
            col, row = [rng.choice(cr) for _ in range(w)], [rng.choice(rr) for _ in range(h)]
            if sum(map(sum, col)) == sum(map(sum, row)):
                break
        add(col, row)
    for n in (2, 5, 100):  # numbers far beyond the line
        add([[n]], [[1]])
        add([[1], [1]], [[n, n]])
    add([[1, 1]], [[1], [1]])
    # many guesses, deep and wide
    guesses = []
    for n, ms, col, row, g in hard_nonograms():
        if (ms > ctx.n(1600, 8000)) if g else (n > ctx.n(60, 500)):
            continue
        guesses.append(n)
        for k in range(4 if g and n < 100 else 1):  # turned about
            c, r, p = col, row, g
            if k & 1:
                c, p = c[::-1], p and [v for y in range(len(r)) for v in p[y * len(c):(y + 1) * len(c)][::-1]]
                r = [x[::-1] for x in r]
            if k & 2:
                p = p and [p[y * len(c) + x] for x in range(len(c)) for y in range(len(r))]
                c, r = r, c
            add(c, r, p)
    ctx.notes["guesses_of_hard_ones"] = sorted(guesses)
    for n in (8, 13, 20) + ctx.n((), (30, 40)):  # every filling is a permutation: all guesses go well
        add([[1]] * n, [[1]] * n, [int(x == y) for y in range(n) for x in range(n)])
    for n in (3, 4, 5, 6):  # one block too few: every arrangement fails (the solver tries them all)
        add([[1]] * n, [[1]] * (n - 1) + [[]])
        add([[]] + [[1]] * (n - 1), [[1]] * n)
    # lines longer than a byte counts
    for (w, h) in [(257, 2), (2, 257), (300, 3), (3, 270)] + ctx.n([(70, 60)], [(70, 60), (400, 2), (2, 400), (260, 258), (100, 100)]):
        for d in (0.9, 0.97, 1):
            g = [int(rng.random() < d) for _ in range(w * h)]
            add(*rules_of(g, w, h), g)
        add([[h]] * w, [[w]] * h, [1] * (w * h))
        add([[h]] * (w - 1) + [[h - 1]], [[w]] * h)
    # ... with hundreds of blocks and as much room to spare
    for (n, k) in [(520, 131), (700, 150), (600, 132)] + ctx.n([], [(800, 200), (900, 129), (1100, 300)]):
        line = placed(rng, [1] * k, n)
        for g in (line + [1 - v for v in line], line + placed(rng, [2] * (k // 4), n), line):
            if rng.random() < 0.5:
                add(*rules_of(g, n, len(g) // n), g)
            else:
                g = [g[y * n + x] for x in range(n) for y in range(len(g) // n)]
                add(*rules_of(g, len(g) // n, n), g)
    # more than 2^16 squares, few of them filled
    for (w, h) in [(300, 300), (260, 255), (4000, 18), (19, 3700)] + ctx.n([], [(500, 400), (2, 40000), (40000, 2)]):
        g = [0] * (w * h)
        for _ in range(5):
            g[rng.randrange(w * h)] = 1
        for k in (0, w - 1, w * h - 1, w * h - w, w * h - 2 * w + 1):
            g[k] = rng.randrange(2)
        add(*rules_of(g, w, h), g)
        g = [0] * (w * h)
        g[w * h - 1 - rng.randrange(w)] = 1
        add(*rules_of(g, w, h), g)
    return cases


def hard_nonograms():
    """(guesses, milliseconds, columns, rows, a solution or None) of the puzzles kept for taking many guesses."""
    with open(os.path.join(os.path.dirname(__file__), "hard_nonograms.txt")) as f:
        for line in f:
            if line[0] != "#":
                n, ms, c, r, g = line.split()
                yield int(n), int(ms), json.loads(c), json.loads(r), None if g == "-" else [int(v) for v in g]


TWINS = [([1, 12], [11, 2]), ([1, 1, 1], [11, 1]), ([1, 11], [11, 1]), ([1, 1, 1], [1, 11]), ([2, 13], [21, 3]), ([12, 3], [1, 23]),
         ([1, 2], [12]), ([1, 2, 3], [12, 3]), ([10, 1], [1, 10]), ([3, 1, 2], [2, 1, 3]), ([2, 2, 5], [2, 5, 2]), ([4, 4], [2, 6]),
         ([1, 3, 1, 3], [3, 1, 3, 1]), ([1] * 12, [1] * 11 + [2]), ([2] * 9, [2] * 8 + [1, 1]), ([22, 2], [2, 22]), ([5, 17], [17, 5])]


def placed(rng, rule, n):
    """A line of length n with these blocks, at random places."""
    slack = n - sum(rule) - len(rule) + 1
    cuts = sorted(rng.randint(0, slack) for _ in rule)
    line, last = [], 0
    for k, (r, c) in enumerate(zip(rule, cuts)):
        line += [0] * (c - last + (k > 0)) + [1] * r
        last = c
    return line + [0] * (n - len(line))


def strips(ctx, count):
    """Few long lines with much room, whose rules are easily mistaken for one another."""
    rng = ctx.rng
    for k in range(count):
        n = rng.choice([14, 20, 26, 33, 40, 60, 60, 66, 80, 100])
        lines = []
        style = rng.choice(["twins", "twins", "opposite", "comb", "mix"])
        if style == "twins":
            while len(lines) < 2:
                t = [r for r in rng.choice(TWINS) if sum(r) + len(r) - 1 <= n]
                lines += [placed(rng, r, n) for r in t]
        else:
            m = rng.choice([2, 3, 4]) if style != "mix" else 9
            a, left = [], n * rng.choice([0.4, 0.55, 0.7])
            while left > 0:
                a.append(rng.randint(1, m))
                left -= a[-1] + 1
            if sum(a) + len(a) - 1 > n:
                a.pop()
            if style == "comb":
                a = [a[0]] * (n // 2 // (a[0] + 1))
            lines = [placed(rng, a, n)]
            if style == "opposite":
                lines.append([1 - v for v in lines[0]])
        if rng.random() < 0.3:
            lines.append(placed(rng, [rng.randint(1, n // 2)], n))
        rng.shuffle(lines)
        w, h = n, len(lines)
        g = [v for l in lines for v in l]
        if rng.random() < 0.5:
            g, w, h = [g[y * w + x] for x in range(w) for y in range(h)], h, w
        yield w, h, g


def nonogram_design(ctx):
    if ctx.quick:
        ctx.model("NonogramLine", "NonogramLine_Quick", workers=2)
        ctx.model("MCNonogramSolver", "MCNonogramSolver_Quick23", workers=2)
        ctx.model("MCNonogramClosure", "MCNonogramClosure_Quick", workers=2)
    else:
        ctx.model("NonogramLine", "NonogramLine_Thorough")
        ctx.model("MCNonogramClosure", "MCNonogramClosure_Thorough")
        ctx.model("MCNonogramSolver", "MCNonogramSolver_Quick")
        ctx.model("MCNonogramSolver", "MCNonogramSolver_Thorough23")
        ctx.model("MCNonogramSolver", "MCNonogramSolver_Thorough")


def c17(ctx):
    nonogram_design(ctx)
    judge(ctx, nonograms(ctx, ctx.n(1500, 20000), ctx.n(500, 6000)), "C17", limit=60)


def huge_rules(ctx):
    """Puzzles with a number far beyond the line, among ordinary ones."""
    rng = ctx.rng
    cases = []
    vals = [2 ** k + d for k in (16, 31, 32, 33, 40, 47, 60, 62, 63) for d in (-1, 0, 1)] + [2 ** 64 - 1, 2 ** 64 - 2, 10 ** 12, 300, 70000]
    for v in vals:
        for _ in range(ctx.n(3, 12)):
            w, h = rng.randint(1, 6), rng.randint(1, 6)
            g = picture(rng, w, h)
            col, row = [[list(r) for r in a] for a in rules_of(g, w, h)]
            for _ in range(rng.choice([1, 1, 2])):
                r = rng.choice(rng.choice([col, row]))
                r.insert(rng.randint(0, len(r)), rng.choice([v, v, rng.choice(vals)]))
                if rng.random() < 0.2:
                    r.insert(rng.randint(0, len(r)), 2 ** 64 - v)  # adds up to 0 modulo 2^64
            if not any(v > 100 for r in col + row for v in r):
                continue
            digits = lambda a: [[[int(d) for d in str(n)] for n in r] for r in a]
            text_of = lambda a: [[str(n) for n in r] for r in a]
            cases.append({"op": "solve_nonogram", "col": text_of(col), "row": text_of(row), "cn": digits(col), "rn": digits(row)})
    return cases


def c18(ctx):
    nonogram_design(ctx)
    judge(ctx, huge_rules(ctx), "C18huge")
    judge(ctx, nonograms(ctx, ctx.n(1500, 20000), ctx.n(500, 6000)), "C18", limit=150)


def text(s):
    return [ord(c) for c in s]


def lines_text(rng, n, bound, zero=0.3):
    """n lines of rule text within the bound."""
    res = []
    for _ in range(n):
        left = bound
        r = []
        while left > 0 and (not r or rng.random() < 0.6):
            v = 0 if rng.random() < zero else rng.randint(1, max(1, left))
            if v > left:
                break
            r.append(v)
            left -= v + 1
        res.append(r or [0])
    return res


def c19(ctx):
    rng = ctx.rng
    nonogram_design(ctx)
    cases, empty = [], []

    def add(cs, rs, w, h):
        cases.append({"op": "nono_pipeline", "cs": text(cs), "rs": text(rs), "w": w, "h": h})

    def txt(rules):
        return ";".join(",".join(rng.choice(["%d", "%d", "0%d", "00%d"]) % v if rng.random() < 0.1 else str(v) for v in r) for r in rules)

    toks = ["0", "1", "2", "0,0", "0,1", "1,0", "1,1", "0,0,0", "3"]
    for a in toks:
        for b in toks:
            add(a, b, 1, 1)
            add(a, b, 1, 3)
            add(a + ";" + b, rng.choice(toks) + ";" + rng.choice(toks), 2, 2)
            add(a + ";" + b + ";0", rng.choice(toks) + ";" + rng.choice(toks) + ";" + rng.choice(toks), 3, 3)
    for _ in range(ctx.n(500, 8000)):
        w, h = rng.randint(1, 8), rng.randint(1, 8)
        if rng.random() < 0.5:
            g = picture(rng, w, h)
            col, row = rules_of(g, w, h)
            col, row = [r or [0] for r in col], [r or [0] for r in row]
        else:
            z = rng.choice([0, 0.3, 0.8])
            col, row = lines_text(rng, w, h, z), lines_text(rng, h, w, z)
        add(txt(col), txt(row), w, h)
    for (w, h) in [(20, 3), (3, 20), (16, 16), (25, 25)]:
        for _ in range(ctx.n(1, 6)):
            g = [int(rng.random() < 0.8) for _ in range(w * h)]
            col, row = rules_of(g, w, h)
            add(txt([r or [0] for r in col]), txt([r or [0] for r in row]), w, h)
    for n in (9, 18, 20, 40, 60, 100):  # long lists of numbers beside short lines
        for other in (1, 2, 3):
            for k in range(ctx.n(2, 8)):
                g = [int(rng.random() < rng.choice([0.4, 0.6])) if k else int((x + y) % 2 == 0) for y in range(other) for x in range(n)]
                col, row = rules_of(g, n, other)
                col, row = [r or [0] for r in col], [r or [0] for r in row]
                add(txt(col), txt(row), n, other)
                add(txt(row), txt(col), other, n)
        z = [0] * n
        if n > 9:
            add(";".join(["0"] * n), txt([z[:(n + 1) // 2]]), n, 1)
            add(txt([z[:(n + 1) // 2]]), ";".join(["0"] * n), 1, n)
    for s in ("", ";", ",", "1;", "a", "1;2;x", "+1", "9"):
        add(s, "1", 1, 1)
        add("1", s, 1, 1)
    for (col, row) in [([], []), ([], [[1]]), ([[1]], []), ([], [[]]), ([[]], []), ([], [[0], [0]]), ([[3], [2]], []), ([], [[]] * 5)]:
        empty.append({"op": "solve_nonogram", "col": col, "row": row})
    a, b = ctx.run(cases), ctx.run(empty)
    for e in a:
        e["op"] = "C19"
    for e in b:
        e["op"] = "C19empty"
    ctx.conform(a + b)


def c20(ctx):
    ctx.model("MCParsers", ctx.n("MCParsers_Quick", "MCParsers_Thorough"))
    rng = ctx.rng
    cases = []
    top = 2 ** 64 - 1

    def add(s, bound):
        assert 0 <= bound < top
        cases.append({"op": "parse_rules", "s": text(s), "bound": bound, "bd": [int(d) for d in str(bound)]})

    # every text of up to three characters, as in MCParsers, and with bounds around it
    alpha = "029,;+x\u0663"
    for n in range(0, 4):
        for t in itertools.product(alpha, repeat=n):
            add("".join(t), rng.choice([0, 1, 2, 9, 22]))
    odd = ["", " ", "x", "-1", "1.5", " 1", "1 ", "1\n", "--", "0x1", "1_0", "\u0661", "\uff11", "\u00b2", "1e3", "\U0001f600", "NaN", "+", "++1", "\t"]
    odd += [str(top + 1), str(top + 2), "9" * 25, "1" + "0" * 30, str(2 * top)]
    big = [str(top), str(top - 1), str(2 ** 63), str(2 ** 63 - 1), str(2 ** 32), str(2 ** 31), "0" * 30 + "7", "00", "+3", "+0"]
    for _ in range(ctx.n(2500, 40000)):
        rules = []
        for _ in range(rng.randint(1, 5)):
            rules.append([str(rng.choice([0, 1, 2, 3, 10, 49, 200])) for _ in range(rng.randint(1, 5))])
        need = max(sum(map(int, r)) + len(r) - 1 for r in rules)
        r = rng.random()
        for _ in range(rng.choice([0, 0, 1, 2])):
            line = rng.choice(rules)
            line[rng.randrange(len(line))] = rng.choice(odd + big if r < 0.7 else odd)
        s = ";".join(",".join(x) for x in rules)
        k = rng.random()
        if k < 0.1 and s:  # one character changed, dropped or doubled
            p = rng.randrange(len(s))
            s = rng.choice([s[:p] + s[p + 1:], s[:p] + rng.choice(",;0x ") + s[p:], s[:p] + s[p] + s[p:]])
        bound = rng.choice([need, need, max(0, need - 1), need + 1, 0, 5, 50, 2 ** 31, 2 ** 32, 2 ** 63, top - 1, rng.randint(0, 300)])
        add(s, bound)
    # sums that overflow a machine word, at every position
    for n in range(1, 5):
        for pos in range(n):
            for b in (0, 3, 2 ** 32, 2 ** 63, top - 1):
                r = ["1"] * n
                r[pos] = str(top)
                add(",".join(r), b)
                r[(pos + 1) % n] = str(2 ** 63)
                add(",".join(r), b)
                add("1;" + ",".join(r) + ";x", b)
                add("x;" + ",".join(r), b)
    judge(ctx, cases, "C20")


def c23(ctx):
    if not ctx.hooks():
        return c18(ctx)
    nonogram_design(ctx)
    rng = ctx.rng
    cases = []

    def add(grid, col, row, wit=None):
        cases.append({"op": "deduce", "grid": grid, "col": col, "row": row})
        if wit is not None:
            cases[-1]["wit"] = wit

    al = list(itertools.product(itertools.product(range(3), repeat=4), itertools.product([[], [1], [2], [3]], repeat=2),
                                itertools.product([[], [1], [2], [0, 1]], repeat=2)))
    for g, c, r in rng.sample(al, ctx.n(2500, len(al))):
        add(list(g), list(c), list(r))
    for _ in range(ctx.n(3000, 40000)):
        w, h = rng.randint(1, 6), rng.randint(1, 5)
        g = picture(rng, w, h)
        col, row = rules_of(g, w, h)
        if rng.random() < 0.2:
            a = rng.choice([col, row])
            rng.shuffle(a)
        if rng.random() < 0.2:
            col = [zeros(rng, r) if rng.random() < 0.3 else r for r in col]
        d = rng.choice([0, 0.1, 0.3, 0.6, 1])
        marks = [(1 if v else 2) if rng.random() < d else 0 for v in g]
        if rng.random() < 0.3:
            for _ in range(rng.randint(1, 2)):
                marks[rng.randrange(w * h)] = rng.randrange(3)
        add(marks, col, row, g)
    # large grids and long lines
    for (w, h) in [(12, 9), (9, 12), (15, 15), (20, 4), (4, 20), (25, 2), (2, 30), (40, 1), (1, 40), (60, 3)] * ctx.n(6, 40) + [(270, 2), (2, 270)]:
        g = picture(rng, w, h) if rng.random() < 0.4 else [int(rng.random() < rng.choice([0.4, 0.6, 0.75])) for _ in range(w * h)]
        col, row = rules_of(g, w, h)
        d = rng.choice([0, 0.05, 0.2, 0.5, 0.8])
        marks = [(1 if v else 2) if rng.random() < d else 0 for v in g]
        if rng.random() < 0.2:
            k = rng.randrange(w * h)
            marks[k] = 2 if g[k] else 1
        add(marks, col, row, g)
    for w, h, g in strips(ctx, ctx.n(200, 2000)):
        d = rng.choice([0, 0, 0.02, 0.1, 0.4])
        add([(1 if v else 2) if rng.random() < d else 0 for v in g], *rules_of(g, w, h), g)
    judge(ctx, cases, "C23")


# ------------------------------------------------------------------------------------------------ independence
def c25(ctx):
    from . import picture as pic
    rng = ctx.rng

    def some_calls():
        g = sudoku.shuffled(sudoku.full(rng), rng)
        calls = []
        for k in (10, 45, 58):
            calls.append({"op": "solve_sudoku", "p": sudoku.holes(g, k, rng)})
        calls.append({"op": "solve_sudoku", "p": [0] * 81})   # many completions: still always the same one
        calls += [{"op": "solve_sudoku", "p": p} for _, p, _ in rng.sample(sudoku.unsolvable(rng, g), 4)]
        calls.append({"op": "solve_sudoku", "p": [1] * 80})
        calls.append({"op": "solve_sudoku", "p": g[:40] + [12] + g[41:]})
        calls.append({"op": "parse_sudoku", "s": [48 + v for v in g]})
        calls.append({"op": "parse_sudoku", "s": [48 + v for v in g[:50]] + [120]})
        calls.append({"op": "parse_sudoku", "s": [48] * 80})
        for _ in range(3):
            w, h = rng.randint(2, 7), rng.randint(2, 7)
            col, row = rules_of(picture(rng, w, h), w, h)
            calls.append({"op": "solve_nonogram", "col": col, "row": row})
        calls.append({"op": "solve_nonogram", "col": [[1]] * 4, "row": [[1]] * 4})   # many solutions
        calls.append({"op": "solve_nonogram", "col": [[1]] * 3, "row": [[1], [2], [1]]})
        calls.append({"op": "solve_nonogram", "col": [], "row": [[1]]})
        calls.append({"op": "solve_nonogram", "col": [[3]], "row": [[1]]})
        calls.append({"op": "parse_rules", "s": text("1,2;0;3"), "bound": 5})
        calls.append({"op": "parse_rules", "s": text("1,2;x;3"), "bound": 5})
        calls.append({"op": "parse_rules", "s": text("1,2;9"), "bound": 5})
        calls.append({"op": "parse_rules", "s": text("5,x"), "bound": 5})
        calls.append({"op": "parse_rules", "s": text("5"), "bound": 5})
        calls.append({"op": "parse_rules", "s": text("2,2;1,1,1;5"), "bound": 5})
        w, h = rng.randint(1, 6), rng.randint(1, 6)
        calls.append({"op": "print_maze", "w": w, "h": h, "right": pic.walls(ctx, w * h), "down": pic.walls(ctx, w * h)})
        calls.append({"op": "print_maze", "w": w + 1, "h": h, "right": pic.walls(ctx, w * h), "down": pic.walls(ctx, w * h)})
        sol, _, _ = pic.walk(ctx, w, h, 9)
        calls.append({"op": "maze_overlay", "iw": 10 * w + 1, "ih": 10 * h + 1, "bg": pic.noise(ctx), "sol": sol})
        calls.append({"op": "maze_overlay", "iw": 11, "ih": 11, "bg": pic.noise(ctx), "sol": ["Right"]})
        calls.append({"op": "print_sudoku", "p": sudoku.holes(g, 50, rng)})
        calls.append({"op": "print_sudoku", "p": g[:80]})
        col, row = pic.fitting(ctx, 4, 3)
        calls.append({"op": "print_nonogram", "w": 4, "h": 3, "col": col, "row": row})
        calls.append({"op": "print_nonogram", "w": 3, "h": 3, "col": col, "row": row})
        calls.append({"op": "nono_overlay", "w": 2, "h": 2, "iw": 250, "ih": 250, "bg": pic.noise(ctx), "grid": [1, 0, 0, 1]})
        calls.append({"op": "nono_overlay", "w": 2, "h": 2, "iw": 250, "ih": 251, "bg": pic.noise(ctx), "grid": [1, 0, 0, 1]})
        # the same calls slightly changed: same lengths, same sums, same multisets
        for c in list(calls):
            v = dict(c)
            if c["op"] in ("solve_sudoku", "print_sudoku") and len(c["p"]) == 81:
                a, b = rng.sample(range(1, 10), 2)
                v["p"] = [b if x == a else a if x == b else x for x in c["p"]]
            elif c["op"] == "solve_nonogram":
                v["col"], v["row"] = c["row"], c["col"]
            elif c["op"] == "parse_sudoku":
                v["s"] = c["s"][::-1]
            elif c["op"] == "parse_rules":
                v["s"] = c["s"][::-1]
            elif c["op"] == "print_nonogram":
                v["col"], v["row"] = [r[::-1] for r in c["col"]], [r[::-1] for r in c["row"]]
            elif c["op"] == "print_maze" and len(c["right"]) == c["w"] * c["h"]:
                v["right"], v["down"] = c["down"], c["right"]
            elif c["op"] == "maze_overlay":
                v["sol"] = c["sol"][1:]
            elif c["op"] == "nono_overlay":
                v["grid"] = [1 - x for x in c["grid"]]
            else:
                continue
            calls.append(v)
        calls += siblings()
        rng.shuffle(calls)
        return calls

    def siblings():
        """Families of calls that differ in one argument only."""
        fam = []
        t = rng.choice(["1,2;3", "2;0;1,1", "4", "1,1;2,2;5", ";".join(str(rng.randint(0, 4)) for _ in range(6))])
        need = max(sum(map(int, l.split(","))) + l.count(",") for l in t.split(";"))
        for b in {need, need - 1, need + 1, 0, 1000}:
            if b >= 0:
                fam.append({"op": "parse_rules", "s": text(t), "bound": b})
        for x in (t + ";", t + ",0", " " + t, t.replace(";", ","), t[::-1], t.replace(",", "")):
            fam.append({"op": "parse_rules", "s": text(x), "bound": need})
        n = rng.randint(3, 6)
        for _ in range(4):
            g = picture(rng, n, 3)
            c, r = rules_of(g, n, 3)
            fam.append({"op": "solve_nonogram", "col": c, "row": r})
            for i in range(2):
                r2 = list(r)
                rng.shuffle(r2)
                fam.append({"op": "solve_nonogram", "col": c, "row": r2})
                c2 = list(c)
                rng.shuffle(c2)
                fam.append({"op": "solve_nonogram", "col": c2, "row": r})
            fam.append({"op": "solve_nonogram", "col": c + [[]], "row": r})
            fam.append({"op": "solve_nonogram", "col": c, "row": r + [[0]]})
        # two rules moved between columns and rows; the same numbers grouped differently
        fam.append({"op": "solve_nonogram", "col": [[1], [1], []], "row": [[1], [1]]})
        fam.append({"op": "solve_nonogram", "col": [[1], [1]], "row": [[], [1], [1]]})
        fam.append({"op": "solve_nonogram", "col": [[1, 1]], "row": [[1], [], [1]]})
        fam.append({"op": "solve_nonogram", "col": [[11]], "row": [[1], [], [1]]})
        g = sudoku.full(rng)
        p = sudoku.holes(g, 40, rng)
        fam += [{"op": o, "p": q} for o in ("solve_sudoku", "print_sudoku") for q in (p, g, p[::-1], p + [0], p[:80], [0] + p[1:], p[:80] + [0],
                                                                                      p[9:] + p[:9], p[1:] + p[:1])]
        s = [48 + v for v in p]
        fam += [{"op": "parse_sudoku", "s": q} for q in (s, s[::-1], s + [48], s[:80], s[:80] + [46], [46] + s[1:], s[9:] + s[:9])]
        w, h = rng.choice([(2, 6), (3, 4), (1, 6), (2, 3)])
        right, down, sol = pic.walls(ctx, w * h), pic.walls(ctx, w * h), pic.walk(ctx, w, h, 7)[0]
        for a, b in ((w, h), (h, w), (w * h, 1), (1, w * h), (w, h + 1)):
            fam.append({"op": "print_maze", "w": a, "h": b, "right": right, "down": down})
        fam.append({"op": "print_maze", "w": w, "h": h, "right": right, "down": pic.walls(ctx, w * h)})
        fam.append({"op": "print_maze", "w": w, "h": h, "right": pic.walls(ctx, w * h), "down": down})
        bg = pic.noise(ctx)
        for (a, b), z, steps in (((w, h), bg, sol), ((h, w), bg, sol), ((w, h), pic.noise(ctx), sol), ((w, h), bg, sol[1:]), ((w, h), bg, sol[::-1]),
                                 ((w + 1, h), bg, sol)):
            fam.append({"op": "maze_overlay", "iw": 10 * a + 1, "ih": 10 * b + 1, "bg": z, "sol": steps})
        a, b = pic.fitting(ctx, w, h), pic.fitting(ctx, w, h)
        for w2, h2, c, r in ((w, h, a[0], a[1]), (w, h, b[0], a[1]), (w, h, a[0], b[1]), (h, w, a[1], a[0]), (h, w, a[0], a[1])):
            fam.append({"op": "print_nonogram", "w": w2, "h": h2, "col": c, "row": r})
        raw = [rng.choice([0, 255]) for _ in range(3 * w * h)]
        k = rng.randrange(len(raw))
        for a, b, q in ((w, h, raw), (h, w, raw), (w, h, raw[::-1]), (w, h, raw[:k] + [raw[k] ^ 1] + raw[k + 1:]), (1, w * h, raw)):
            fam.append({"op": "png", "w": a, "h": b, "raw": q})
        grid = [rng.randrange(2) for _ in range(w * h)]
        size = lambda a, b: (50 * a + 150, 50 * b + 150)
        for (a, b), (iw, ih), z, q in (((w, h), size(w, h), bg, grid), ((h, w), size(h, w), bg, grid), ((h, w), size(w, h), bg, grid),
                                       ((w, h), size(w, h), pic.noise(ctx), grid), ((w, h), size(w, h), bg, grid[::-1])):
            fam.append({"op": "nono_overlay", "w": a, "h": b, "iw": iw, "ih": ih, "bg": z, "grid": q})
        return fam

    cases = []
    for k in range(ctx.n(6, 40)):
        calls = some_calls()
        if k % 3 == 2:  # pure computing, many more repetitions
            calls = [c for c in calls if not c["op"].startswith(("print", "nono_overlay", "maze_overlay"))]
        alone = ctx.run([{"op": "iso", "mode": "alone", "calls": [c]} for c in calls], fresh=True)
        if len(alone) != len(calls):
            raise AssertionError("a call on its own gave no outcome")
        cases.append({"op": "iso", "mode": "many", "calls": calls, "threads": [1, 2, 8, 16][k % 4], "reps": ctx.n(3, 10) * (4 if k % 3 == 2 else 1),
                      "seed": rng.randrange(1, 10**9), "mazes": ctx.n(12, 60),
                      "alone": [a["out"]["results"][0][0] if a["out"]["k"] == "ok" else a["out"]["k"] for a in alone]})
    ev = ctx.run(cases, limit=120, procs=2)
    # the first calls of a process, made by all threads at the same time
    first = [{**c, "threads": t, "reps": 1, "mazes": 3, "together": True, "seed": rng.randrange(1, 10**9)}
             for c in cases[:ctx.n(3, 20)] for t in (8, 16, 40)]
    ev += ctx.run(first, limit=120, fresh=True)
    ctx.conform(ev, rename="C25", drop=("calls", "seed"))
