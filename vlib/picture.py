"""Picture checks: the specification derives what each call must draw (spec/Expect), the worker rasterises and
compares, and TLC judges the outcome (spec/ConformPicture)."""
import itertools

from . import maze

DIRS = ["Right", "Down", "Left", "Up"]


def noise(ctx):
    return {"k": "noise", "seed": ctx.rng.randrange(1, 10**6)}


def some_bg(ctx):
    r = ctx.rng.random()
    if r < 0.3:
        return noise(ctx)
    if r < 0.6:
        return {"k": "mix", "seed": ctx.rng.randrange(1, 10**6)}
    return {"k": "solid", "c": ctx.rng.choice([[255, 255, 255], [0, 0, 0], [255, 0, 0], [105, 105, 105], [1, 2, 3]])}


def judge(ctx, cases, op, model=True):
    if model:
        ctx.model("MCPicture", ctx.n("MCPicture_Quick", "MCPicture_Thorough"))
    ev = ctx.run(ctx.expect(cases))
    ctx.conform(ev, rename=op)


# ------------------------------------------------------------------------------------------------ mazes
def walls(ctx, n):
    p = ctx.rng.choice([0.1, 0.5, 0.5, 0.9])
    return [int(ctx.rng.random() < p) for _ in range(n)]


def c05(ctx):
    cases = []

    def add(w, h, n=None, px=False, right=None, down=None):
        n = w * h if n is None else n
        c = {"op": "print_maze", "w": w, "h": h, "right": walls(ctx, n) if right is None else right,
             "down": walls(ctx, n) if down is None else down}
        if px:
            c["px"] = True
        cases.append(c)

    for (w, h) in [(1, 1), (2, 1), (1, 2)]:  # every maze of these sizes
        for r in itertools.product([0, 1], repeat=w * h):
            for d in itertools.product([0, 1], repeat=w * h):
                add(w, h, px=True, right=list(r), down=list(d))
    for (w, h) in [(2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3), (4, 2)]:
        for _ in range(ctx.n(3, 40)):
            add(w, h, px=True)
    for w in range(1, 9):
        for h in range(1, 9):
            add(w, h)
            add(w, h, right=[0] * (w * h), down=[0] * (w * h))
            add(w, h, right=[1] * (w * h), down=[1] * (w * h))
            # one wall alone, anywhere
            k = ctx.rng.randrange(w * h)
            one = [int(i == k) for i in range(w * h)]
            add(w, h, right=one, down=[0] * (w * h))
            add(w, h, right=[0] * (w * h), down=one)
    for (w, h) in [(30, 2), (2, 30), (40, 25), (1, 60), (60, 1), (33, 33), (300, 2), (2, 300), (6600, 1), (1, 6600)] + ctx.n([], [(100, 3), (3, 100), (64, 64), (70, 50)]):
        for _ in range(ctx.n(2, 6)):
            add(w, h)
    # cell lists of another length
    for w in range(1, 7):
        for h in range(1, 7):
            for n in {0, 1, w, h, w * h - 1, w * h + 1, w * h - w, w * h + w, w * h - h, w * h + h, 2 * w * h} - {w * h}:
                if n >= 0:
                    add(w, h, n)
    for (w, h, n) in [(65536, 65536, 0), (65536, 65536, 1), (131072, 32768, 0), (2147483647, 1, 1), (1, 2147483647, 1),
                      (2147483647, 2, 0), (46341, 92682, 26)]:
        add(w, h, n)
    judge(ctx, cases, "C05")


def walk(ctx, w, h, n):
    """A random walk of n steps inside a grid of w x h, last step first."""
    x = y = 0
    res = []
    for _ in range(n):
        opts = [d for d, ok in zip(DIRS, (x < w - 1, y < h - 1, x > 0, y > 0)) if ok]
        if not opts:
            break
        d = ctx.rng.choice(opts)
        x, y = x + (d == "Right") - (d == "Left"), y + (d == "Down") - (d == "Up")
        res.append(d)
    return res[::-1], x, y


def c06(ctx):
    cases = []

    def add(iw, ih, sol, px=False):
        c = {"op": "maze_overlay", "iw": iw, "ih": ih, "sol": sol,
             "bg": {"k": "solid", "c": [255, 255, 255]} if px else some_bg(ctx)}
        if px:
            c["px"] = True
        cases.append(c)

    # the behaviours of MCPicture: every walk of up to 4 steps on images of these sizes
    sizes = [(6, 11), (11, 11), (15, 25), (16, 21), (21, 16), (21, 21), (26, 15), (31, 11), (11, 31)]
    for (iw, ih) in sizes:
        for n in range(0, ctx.n(4, 6)):
            for sol in itertools.product(DIRS, repeat=n):
                add(iw, ih, list(sol), px=n < 3)
    for iw in range(1, 10):
        for ih in range(1, 14):
            for sol in ([], ["Right"], ["Down"], ["Left"], ["Up"]):
                add(iw, ih, sol)
    # walks inside, on images that fit them exactly, by a pixel too little, or generously
    for _ in range(ctx.n(400, 6000)):
        w, h = ctx.rng.randint(1, 12), ctx.rng.randint(1, 12)
        sol, x, y = walk(ctx, w, h, ctx.rng.randint(0, 60))
        px, py = 0, 0
        mx = my = 0
        for d in reversed(sol):
            px, py = px + (d == "Right") - (d == "Left"), py + (d == "Down") - (d == "Up")
            mx, my = max(mx, px), max(my, py)
        iw = ctx.rng.choice([10 * w + 1, 10 * mx + 6, 10 * mx + 5, 10 * mx + 7, 10 * w + 37])
        ih = ctx.rng.choice([10 * h + 1, max(10 * my + 6, 10 * y + 11), max(10 * my + 6, 10 * y + 11) - 1, 10 * y + 10,
                             10 * h + 29])
        add(max(iw, 1), max(ih, 1), sol)
        # the same walk with one step changed, dropped or repeated
        if sol:
            k = ctx.rng.randrange(len(sol))
            m = list(sol)
            how = ctx.rng.randrange(3)
            if how == 0:
                m[k] = ctx.rng.choice(DIRS)
            elif how == 1:
                del m[k]
            else:
                m.insert(k, m[k])
            add(10 * w + 1, 10 * h + 1, m)
    # out and back: the walk returns to where it was
    for _ in range(ctx.n(60, 600)):
        w, h = ctx.rng.randint(1, 9), ctx.rng.randint(1, 9)
        sol, _, _ = walk(ctx, w, h, ctx.rng.randint(1, 25))
        inv = {"Right": "Left", "Left": "Right", "Up": "Down", "Down": "Up"}
        back = [inv[d] for d in reversed(sol)]
        add(10 * w + 1, 10 * h + 1, back + sol)
    # leaving the printed grid at each border, early and late
    for (w, h) in [(1, 1), (1, 5), (5, 1), (4, 4), (7, 3)]:
        for x in range(w):
            for y in range(h):
                base = ["Down"] * y + ["Right"] * x
                for d in DIRS:
                    add(10 * w + 1, 10 * h + 1, [d] + base)
                    add(10 * w + 1, 10 * h + 1, [ctx.rng.choice(DIRS), d] + base)
    add(2001, 31, ["Down", "Down"] + ["Right"] * 199)
    add(31, 2001, ["Right"] + ["Down"] * 199)
    for n in (270, ctx.n(6600, 7500)):  # beyond 2^8 cells and 2^16 pixels
        for back in (0, 3):
            inv = {"Right": "Left", "Down": "Up"}
            for d, iw, ih in (("Right", 10 * n + 1, 11), ("Down", 21, 10 * n + 1)):
                if back and d == "Down":
                    add(iw, ih, ["Right"] + [inv[d]] * back + [d] * (n - 1))
                else:
                    add(iw, ih, [inv[d]] * back + [d] * (n - 1))
                add(iw, ih, [d] * n)
        # ... and about there
        for _ in range(2):
            w, h = ctx.rng.randint(2, 6), ctx.rng.randint(2, 6)
            near = walk(ctx, w, h, 25)[0]
            add(10 * (n + w) + 1, 10 * h + 1, near + ["Right"] * n)
            add(10 * w + 1, 10 * (n + h) + 1, near + ["Down"] * n)
            add(10 * (n + w) + 1, 10 * h + 1, ["Left"] * (n // 2) + near + ["Right"] * n)
            add(10 * w + 1, 10 * (n + h) + 1, ["Up"] * (n // 2) + near + ["Down"] * n)
    judge(ctx, cases, "C06")


def c07(ctx):
    maze.design(ctx)
    cases = []
    for (w, h) in maze.shapes(ctx, [(33, 21), (280, 2), (2, 280), (64, 3), (3, 60), (1, 90), (90, 1), (62, 62), (90, 70)], [(40, 40), (80, 80), (150, 140), (65, 20), (3, 150), (1, 300), (300, 1)]):
        for _ in range(ctx.n(8, 80) if w * h <= 49 else ctx.n(3, 12) if w * h <= 2000 else ctx.n(1, 3)):
            cases.append({"op": "maze_picture", "w": w, "h": h})
    ev = ctx.run(cases)
    for e in ev:  # long lines are judged by certificate: their pixels in order (TLC verifies that they are)
        ch = e["out"].get("changed") or []
        if len(ch) > 1500:
            left = {(c[0], c[1]) for c in ch}
            cur = min(left, key=lambda p: p[1])
            line = []
            while cur:
                line.append(list(cur))
                left.discard(cur)
                x, y = cur
                cur = next((p for p in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)) if p in left), None)
            e["line"] = line
    ctx.conform(ev, rename="C07", what="the way through is not shown")


def c08(ctx):
    a = ctx.run([{"op": "serde_node", "right": r, "down": d} for r in (0, 1) for d in (0, 1)])
    b = ctx.run([{"op": "serde_dir", "d": d} for d in DIRS])
    c = ctx.run([{"op": "serde_maze", "w": w, "h": h} for w in range(1, 9) for h in range(1, 9) for _ in range(ctx.n(3, 30))])
    for ev, op in ((a, "C08node"), (b, "C08dir"), (c, "C08maze")):
        for e in ev:
            e["op"] = op
    ctx.conform(a + b + c)


# ------------------------------------------------------------------------------------------------ sudoku
def c13(ctx):
    cases = [{"op": "print_sudoku", "p": p} for p in
             [[(i + k) % 10 for i in range(81)] for k in range(10)]            # every digit in every cell
             + [[0] * 81] + [[d] * 81 for d in range(1, 10)]]
    for _ in range(ctx.n(40, 600)):
        d = ctx.rng.choice([0.1, 0.4, 0.9])
        cases.append({"op": "print_sudoku", "p": [ctx.rng.randint(1, 9) if ctx.rng.random() < d else 0 for _ in range(81)]})
    for i in (list(range(81)) if not ctx.quick else ctx.rng.sample(range(81), 30)):
        for d in ([ctx.rng.randint(1, 9)] if ctx.quick else range(1, 10)):
            cases.append({"op": "print_sudoku", "p": [d if j == i else 0 for j in range(81)]})
    for n in (0, 1, 9, 80, 82, 162):
        cases.append({"op": "print_sudoku", "p": [ctx.rng.randint(0, 9) for _ in range(n)]})
    judge(ctx, cases, "C13")


# ------------------------------------------------------------------------------------------------ nonograms
def fitting_rule(ctx, room, value, each):
    """Numbers that keep to the margin, so that the order of drawing does not matter."""
    n = ctx.rng.randint(0, max(1, room // each))
    return [value() for _ in range(n)]


def fitting(ctx, w, h):
    mw, mh = max(150, 10 * w), max(150, 10 * h)
    col = [fitting_rule(ctx, mh - 20, lambda: ctx.rng.choice([ctx.rng.randint(0, 9), ctx.rng.randint(10, 99)]), 30) for _ in range(w)]
    row = [fitting_rule(ctx, mw - 10, lambda: ctx.rng.choice([ctx.rng.randint(0, 9), ctx.rng.randint(10, 99)]), 50) for _ in range(h)]
    # long numbers: beside a row while they fit; above the last column, right of which there is no line
    for r in row:
        if ctx.rng.random() < 0.3:
            r.clear()
            left = mw - 10
            while True:
                v = ctx.rng.choice([100, 255, 256, 257, 300, 999, 1000, 65535, 65536, 2 ** 31, 2 ** 32, 2 ** 32 + 7, 2 ** 53 + 1,
                                    2 ** 64 - 1, ctx.rng.randrange(10 ** ctx.rng.randint(1, 19))])
                if len(str(v)) * 19 > left:
                    break
                r.append(v)
                left -= len(str(v)) * 19 + 20
                if ctx.rng.random() < 0.2:
                    break
    if col and ctx.rng.random() < 0.5:
        c = col[-1]
        for k in range(len(c)):
            if ctx.rng.random() < 0.5:
                c[k] = ctx.rng.choice([100, 255, 256, 300, 1000, 65537, 2 ** 32 + 1])
    text = lambda a: [[str(n) for n in r] for r in a]  # TLC's integers end at 2^31
    return text(col), text(row)


def crowded(ctx, w, h):
    mw, mh = max(150, 10 * w), max(150, 10 * h)
    digit = lambda: str(ctx.rng.randint(0, 9))
    col = [[digit() for _ in range(ctx.rng.randint(0, (mh - 20) // 30))] for _ in range(w)]
    row = [[digit() for _ in range(ctx.rng.choice([(mw - 20) // 36, ctx.rng.randint(0, (mw - 20) // 36)]))] for _ in range(h)]
    return col, row


def c21(ctx):
    cases = []

    def add(w, h, col, row):
        cases.append({"op": "print_nonogram", "w": w, "h": h, "col": col, "row": row})

    shapes = [(w, h) for w in range(1, 8) for h in range(1, 8)]
    shapes += [(5, 15), (15, 5), (14, 16), (16, 14), (16, 16), (20, 5), (5, 20), (17, 3), (3, 17), (25, 20), (20, 25), (30, 30),
               (1, 35), (35, 1), (11, 10), (70, 3), (3, 70), (270, 1), (1, 270)] + ctx.n([], [(50, 40), (40, 50), (60, 2), (2, 60), (21, 99)])
    for (w, h) in shapes:
        for _ in range(ctx.n(2, 10)):
            add(w, h, *fitting(ctx, w, h))
    for (w, h) in [(1320, 1), (1, 1320)]:  # beyond 2^16 pixels
        add(w, h, *fitting(ctx, w, h))
    for (w, h) in [(40, 5), (70, 3), (80, 2), (110, 4), (5, 40), (2, 110)] + ctx.n([], [(200, 3), (3, 200)]):
        for _ in range(ctx.n(2, 8)):  # many small numbers, as many as the margins hold
            add(w, h, *crowded(ctx, w, h))
    for (w, h) in [(0, 0), (1, 0), (0, 1), (3, 0), (0, 20)]:
        add(w, h, *fitting(ctx, w, h))
    for (w, h) in [(1, 1), (3, 3), (4, 2), (2, 4), (6, 6), (16, 2), (2, 16)]:
        col, row = fitting(ctx, w, h)
        for (a, b) in [(w + 1, h), (w, h + 1), (w - 1, h), (w, h - 1), (h, w), (w + 1, h - 1), (0, 0), (w * h, 1),
                       (w + 5, h), (2147483647, h), (w, 2147483647), (w + 65536, h)]:
            if (a, b) != (w, h):
                add(a, b, col, row)
    judge(ctx, cases, "C21")


def c22(ctx):
    cases = []

    def size(w, h):
        return 50 * w + max(150, 10 * w), 50 * h + max(150, 10 * h)

    def add(w, h, iw, ih, grid):
        cases.append({"op": "nono_overlay", "w": w, "h": h, "iw": iw, "ih": ih, "bg": some_bg(ctx), "grid": grid})

    def g(n, p=None):
        p = ctx.rng.choice([0.0, 0.2, 0.5, 0.8, 1.0]) if p is None else p
        return [int(ctx.rng.random() < p) for _ in range(n)]

    shapes = [(w, h) for w in range(1, 7) for h in range(1, 7)]
    shapes += [(15, 4), (4, 15), (16, 3), (3, 16), (20, 20), (17, 14), (14, 17), (30, 2), (2, 30), (1, 40), (40, 1), (270, 1), (1, 270)]
    shapes += ctx.n([], [(50, 30), (30, 50), (100, 2), (2, 100)])
    for (w, h) in shapes:
        for _ in range(ctx.n(3, 15)):
            add(w, h, *size(w, h), g(w * h))
    for (w, h) in [(1320, 1), (1, 1320)]:  # beyond 2^16 pixels
        add(w, h, *size(w, h), g(w * h, 0.5))
    for (w, h) in [(2, 2), (3, 2)]:  # one square at a time
        for k in range(w * h):
            add(w, h, *size(w, h), [int(i == k) for i in range(w * h)])
    for (w, h) in [(1, 1), (2, 3), (3, 2), (5, 4), (16, 2), (2, 17), (16, 17)]:
        iw, ih = size(w, h)
        for (a, b) in [(iw + 1, ih), (iw - 1, ih), (iw, ih + 1), (iw, ih - 1), (ih, iw), (iw + 50, ih), (iw, ih + 50),
                       (1, 1), (iw - 50, ih), (iw, ih - 50), (iw + 10, ih), (iw, ih - 10), (iw + 1, ih - 1)]:
            if (a, b) != (iw, ih) and a > 0 and b > 0:
                add(w, h, a, b, g(w * h))
        for n in {0, 1, w * h - 1, w * h + 1, w, h, w * h + w, w * h * 2} - {w * h}:
            add(w, h, iw, ih, g(n))
        # another shape with as many squares
        for (a, b) in {(h, w), (1, w * h), (w * h, 1)} - {(w, h)}:
            add(a, b, iw, ih, g(w * h))
        for (a, b) in [(100_000_000, 1), (1, 100_000_000), (85899346, 1), (65536, 65536), (2147483647, 2147483647), (2000000, 3)]:
            add(a, b, iw, ih, g(w * h))
    judge(ctx, cases, "C22")


# ------------------------------------------------------------------------------------------------ PNG
def pixels(ctx, n, kind):
    """Pixels of pictures that a writer may be tempted to store in another form."""
    r = ctx.rng.randrange
    if kind == "bw":
        px = [[v] * 3 for v in (ctx.rng.choice([0, 255]) for _ in range(n))]
    elif kind == "gray":
        px = [[v] * 3 for v in (r(256) for _ in range(n))]
    elif kind == "gray-but-one":
        px = [[v] * 3 for v in (r(256) for _ in range(n))]
        px[r(n)][r(3)] ^= 1 << r(8)
    elif kind in ("rg", "gb", "rb"):
        px = [[r(256) for _ in range(3)] for _ in range(n)]
        for p in px:
            p["rgb".index(kind[1])] = p["rgb".index(kind[0])]
    elif kind == "one-channel":
        k = r(3)
        px = [[r(256) if j == k else 0 for j in range(3)] for _ in range(n)]
    elif kind == "gradient":
        px = [[(i * k) % 256 for k in (1, 2, 5)] for i in range(n)]
    elif kind == "runs":
        px, c = [], [0, 0, 0]
        while len(px) < n:
            px += [c] * ctx.rng.randint(1, 40)
            c = [r(256) for _ in range(3)]
        px = [list(p) for p in px[:n]]
    else:  # a number of different colours
        pal = [[r(256), r(256), r(256)] for _ in range(kind)]
        px = [ctx.rng.choice(pal) for _ in range(n)]
        px[:min(n, kind)] = pal[:min(n, kind)]
    return [v for p in px for v in p]


def c24(ctx):
    ctx.model("MCPng", ctx.n("MCPng_Quick", "MCPng_Thorough"))
    small = []
    for (w, h) in [(1, 1), (1, 2), (2, 1), (3, 3), (1, 50), (50, 1), (7, 5), (5, 7), (14, 14), (8, 8), (2, 99), (66, 3)]:
        for k in range(ctx.n(4, 40)):
            n = 3 * w * h
            pal = [ctx.rng.randrange(256) for _ in range(ctx.rng.choice([1, 2, 3, 256]))]
            small.append({"op": "png", "w": w, "h": h, "raw": [ctx.rng.choice(pal) for _ in range(n)]})
    kinds = ["bw", "gray", "gray-but-one", "rg", "gb", "rb", "one-channel", "gradient", "runs", 1, 2, 3, 4, 5, 15, 16, 17, 255,
             256, 257, 300]
    for kind in kinds:
        for (w, h) in [(4, 4), (17, 19), (31, 10), (1, 8), (8, 1)] + ctx.n([], [(9, 9), (40, 40), (5, 3), (64, 8)]):
            for k in range(ctx.n(1, 6)):
                small.append({"op": "png", "w": w, "h": h, "raw": pixels(ctx, w * h, kind)})
    for v in range(256) if not ctx.quick else (0, 1, 127, 128, 254, 255):
        small.append({"op": "png", "w": 2, "h": 2, "raw": [v] * 6 + [255 - v] * 6})
    big = []
    for (w, h) in [(100, 100), (257, 3), (3, 257), (640, 480), (1, 5000), (5000, 1), (901, 900), (66000, 1), (1, 66000), (70000, 3)]:
        for k in range(ctx.n(2, 8)):
            big.append({"op": "png", "w": w, "h": h, "iw": w, "ih": h, "bg": some_bg(ctx)})
    # one after the other in one process: pictures of one size that hardly differ, and the first of them again
    line = []
    for (w, h) in [(1, 1), (2, 2), (6, 5), (16, 2), (20, 20), (3, 40)] + ctx.n([], [(64, 64), (1, 300)]):
        for k in range(ctx.n(3, 12)):
            base = pixels(ctx, w * h, ctx.rng.choice(["bw", "gray", "gradient", "runs", 2, 300]))
            seq = [base]
            for _ in range(ctx.n(6, 20)):
                v = list(base)
                for _ in range(ctx.rng.choice([1, 1, 2])):
                    v[ctx.rng.randrange(len(v))] ^= 1 << ctx.rng.randrange(8)
                seq += [v] if ctx.rng.random() < 0.6 else [v, base]
            v = list(base)
            a, b = ctx.rng.randrange(len(v)), ctx.rng.randrange(len(v))
            v[a], v[b] = v[b], v[a]
            seq += [v, base[::-1], base[3:] + base[:3], base, base]
            line += [{"op": "png", "w": w, "h": h, "raw": v} for v in seq] + [{"op": "png", "w": h, "h": w, "raw": base}]
    ev = ctx.run(small + big) + ctx.run(line, procs=1)
    for e in ev:
        e["op"] = "C24"
    pr = [{"op": "png_print", "what": "maze", "w": w, "h": h} for (w, h) in [(1, 1), (3, 2), (12, 9), (1, 30), (30, 1), (25, 25)] for _ in range(ctx.n(2, 8))]
    for _ in range(ctx.n(3, 12)):
        pr.append({"op": "png_print", "what": "sudoku", "p": [ctx.rng.randint(0, 9) for _ in range(81)]})
        col, row = fitting(ctx, ctx.rng.randint(1, 20), ctx.rng.randint(1, 20))
        pr.append({"op": "png_print", "what": "nonogram", "col": col, "row": row})
    ev2 = ctx.run(pr)
    for e in ev2:
        e["op"] = "C24print"
    ctx.conform(ev + ev2)
