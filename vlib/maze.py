"""Maze checks."""
from collections import deque


def shapes(ctx, quick_big, thorough_big):
    s = [(w, h) for w in range(1, 8) for h in range(1, 8)]
    s += [(1, 12), (12, 1), (1, 40), (40, 1), (2, 19), (19, 2), (11, 10), (10, 11), (17, 9), (9, 17), (16, 16)]
    s += quick_big if ctx.quick else thorough_big
    return s


def neighbours(w, h, o):
    right, down = o["right"], o["down"]

    def go(c):
        x = c % w
        if x < w - 1 and right[c] == 0:
            yield c + 1
        if c + w < w * h and down[c] == 0:
            yield c + w
        if x > 0 and right[c - 1] == 0:
            yield c - 1
        if c >= w and down[c - w] == 0:
            yield c - w
    return go


def certify(e, dist=True, walk=True, nest=False):
    """Adds the certificates of MazeDefs to a recorded maze. They decide nothing: TLC verifies them first."""
    o, w, h = e["out"], e["w"], e["h"]
    n = w * h
    if o.get("k") != "ok" or len(o.get("right", [])) != n or len(o.get("down", [])) != n:
        return e
    go = neighbours(w, h, o)
    if dist:
        d = [-1] * n
        d[0] = 0
        q = deque([0])
        while q:
            c = q.popleft()
            for m in go(c):
                if d[m] < 0:
                    d[m] = d[c] + 1
                    q.append(m)
        e["dist"] = d
        if nest and min(d) >= 0:
            lo, hi, t = [0] * n, [0] * n, 0
            stack = [(0, None)]
            while stack:
                c, it = stack.pop()
                if it is None:
                    t += 1
                    lo[c] = t
                    it = go(c)
                for m in it:
                    if d[m] == d[c] + 1 and lo[m] == 0:
                        stack.append((c, it))
                        stack.append((m, None))
                        break
                else:
                    hi[c] = t
            e["lo"], e["hi"] = lo, hi
    if walk:
        pos = [0]
        step = {"Right": 1, "Down": w, "Left": -1, "Up": -w}
        for s in reversed(o["sol"]):
            t = pos[-1] + step[s]
            if t not in go(pos[-1]) or (s in ("Right", "Left") and t // w != pos[-1] // w) or (s in ("Up", "Down") and abs(step[s]) == 1 and w > 1):
                break
            pos.append(t)
        e["pos"] = pos
    return e


def mazes(ctx, reps_small, reps_big, big, thorough_big):
    cases = []
    for (w, h) in shapes(ctx, big, thorough_big):
        for _ in range(reps_small if w * h <= 49 else reps_big if w * h <= 2000 else 1):
            cases.append({"op": "create_maze", "w": w, "h": h})
    return ctx.run(cases)


# beyond 2^16 cells, and with depth-first paths of thousands of cells
BIG = [(33, 21), (25, 40), (64, 3), (3, 70), (1, 200), (200, 1), (60, 60), (70, 65), (110, 101), (3, 1500), (1500, 2),
       (1, 3000), (3000, 1), (265, 260), (1, 66000), (66000, 1), (2, 66000), (520, 500)]
TBIG = BIG + [(50, 50), (65, 33), (30, 70), (1, 1000), (1000, 1), (2, 300), (129, 5), (80, 80), (257, 256), (300, 320), (1, 70000),
              (70000, 1), (2, 40000), (33000, 2), (410, 400), (140000, 2), (700, 720)] + [(64, 64), (100, 100)] * 5


def design(ctx):
    ctx.model("MCMazeGen", ctx.n("MCMazeGen_QuickFull", "MCMazeGen_ThoroughFull"), workers=1)
    ctx.model("MCMazeGen", ctx.n("MCMazeGen_QuickReduced", "MCMazeGen_ThoroughReduced"), workers=1)
    ctx.model("MCMazeCert", "MCMazeCert_Quick", workers=3)
    if not ctx.quick:
        ctx.model("MCMazeCert", "MCMazeCert_Thorough", workers=2)


def c01(ctx, prop=None):
    prop = prop or ctx.prop
    design(ctx)
    ev = mazes(ctx, ctx.n(10, 100), ctx.n(4, 20), BIG, TBIG)
    # small mazes are judged by the definitions, large ones by certificate
    ev = [certify(e, dist=prop != "C03", walk=prop == "C03") if e["w"] * e["h"] > 300 else e for e in ev]
    ctx.notes["largest"] = max(e["w"] * e["h"] for e in ev)
    ctx.conform(ev, rename=prop)


c02 = c03 = c01


def c04(ctx):
    design(ctx)
    small = [(w, h) for w in range(1, 9) for h in range(1, 9)] + [(12, 12), (1, 30), (15, 7), (7, 15)]
    large = [(30, 30), (60, 45), (45, 60), (3, 500), (500, 3), (110, 105)] + ctx.n([], [(200, 200), (265, 260), (2, 20000)])
    ev = ctx.run([{"op": "create_maze", "w": w, "h": h} for (w, h) in small for _ in range(ctx.n(4, 40))]
                 + [{"op": "create_maze", "w": w, "h": h} for (w, h) in large for _ in range(ctx.n(2, 10))])
    ev = [certify(e, walk=False, nest=True) if e["w"] * e["h"] > 300 else e for e in ev]
    ctx.conform(ev, rename="C04")
    sup = [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)] + ctx.n([], [(3, 4), (4, 3), (2, 5), (5, 2)])
    n = ctx.n(30000, 200000)
    ev = ctx.run([{"op": "maze_support", "w": w, "h": h, "n": n} for (w, h) in sup], limit=300)
    ctx.notes["runs_per_grid"] = n
    ctx.notes["rarest_maze_count"] = {f'{e["w"]}x{e["h"]}': min([s["n"] for s in e["out"].get("seen", [])] or [0]) for e in ev}
    ctx.conform(ev, rename="C04support")
    steps = [(8, 7, 1, 6000), (8, 7, 2, 20000), (5, 6, 3, 60000), (6, 5, 3, 60000), (2, 9, 4, 30000), (9, 2, 4, 30000), (17, 12, 2, 6000), (12, 17, 2, 6000),
             (60, 50, 1, 1500), (50, 61, 1, 1500), (100, 90, 1, 600), (2, 300, 1, 4000), (300, 2, 1, 4000)]
    steps += ctx.n([], [(6, 6, 4, 300000), (30, 20, 2, 20000), (3, 40, 3, 60000), (40, 3, 3, 60000), (12, 10, 3, 150000)])
    ev = ctx.run([{"op": "maze_steps", "w": w, "h": h, "len": k, "n": n} for (w, h, k, n) in steps], limit=300)
    ctx.notes["rarest_stretch_count"] = {f'{e["w"]}x{e["h"]}:{e["len"]}': e["out"].get("rarest") for e in ev}
    ctx.conform(ev, rename="C04steps", what="the mazes generated are not all the depth-first ones")
    n = ctx.n(4000, 30000)
    ways = [{"op": "maze_words", "w": w, "h": h, "len": k, "n": n} for (w, h, k) in ctx.n([(18, 18, 7), (23, 19, 6), (19, 30, 6)], [(20, 20, 8), (30, 25, 8), (50, 40, 7)])]
    ways += [{"op": "maze_words", "w": w, "h": h, "len": k, "n": ctx.n(4000, 20000), "want": long_ways(ctx, k)}
             for (w, h, k) in [(26, 25, 8), (30, 29, 9), (29, 30, 9), (27, 30, 8)]]
    ev = ctx.run(ways, limit=300)
    ctx.notes["rarest_way_count"] = {f'{e["w"]}x{e["h"]}:{e["len"]}': e["out"].get("rarest") for e in ev}
    ctx.conform(ev, rename="C04ways", what="the mazes generated are not all the depth-first ones")
    n = ctx.n(200_000, 1_200_000)
    ev = ctx.run([{"op": "maze_apart", "w": 16, "h": 16, "n": n, "threads": 8}, {"op": "maze_apart", "w": 18, "h": 14, "n": 3200, "threads": 800}], limit=400)
    ctx.conform(ev, rename="C04apart", what="the same maze again and again")
    ev = ctx.run([{"op": "create_maze", "w": 13, "h": 12}] * ctx.n(24, 200), fresh=True)
    ctx.conform([{"op": "C04fresh", "w": 13, "h": 12, "out": [e["out"] for e in ev]}], what="the same maze in every process")


def long_ways(ctx, k):
    """Ways of k steps to look for: straight ones, stairs, snakes and random ones."""
    side = 2 * k + 3
    res = []
    for a in range(4):
        for b in (1, 3):
            o = (a + b) % 4
            back = (a + 2) % 4
            res += [[a] * k, [(a, o)[i % 2] for i in range(k)], [(a, a, o, o)[i % 4] for i in range(k)],
                    [a if i % (k // 2) else o for i in range(k)], ([a] * 3 + [o] + [back] * 3 + [o]) * k]
    for _ in range(60):
        res.append([ctx.rng.randrange(4) for _ in range(k)])
    out = []
    for word in res:
        p = [side * side // 2]
        for d in word[:k]:
            n = p[-1] + (1, side, -1, -side)[d]
            if n in p:  # a random way turns elsewhere
                n = next((m for m in (p[-1] + 1, p[-1] + side, p[-1] - 1, p[-1] - side) if m not in p), None)
                if n is None:
                    break
            p.append(n)
        if len(p) == k + 1 and p not in out:
            out.append(p)
    return out
