"""Generators for sudoku inputs. Nothing here decides a property: witnesses are checked by TLC."""
import os


def peers():
    res = []
    for i in range(81):
        r, c = divmod(i, 9)
        s = {j for j in range(81) if j != i and (j // 9 == r or j % 9 == c or (j // 27 == i // 27 and j % 9 // 3 == c // 3))}
        res.append(sorted(s))
    return res


PEERS = peers()
ALL = 0x3FE


UNITS = ([[9 * r + c for c in range(9)] for r in range(9)] + [[9 * r + c for r in range(9)] for c in range(9)]
         + [[9 * (b // 3 * 3 + k // 3) + b % 3 * 3 + k % 3 for k in range(9)] for b in range(9)])
BITS = [bin(m).count("1") for m in range(1024)]


class Limit(Exception):
    pass


def solve(p, rng=None, limit=10**9, count=None, trail=None):
    """Searches as SudokuDefs!Search does, so that nodes says what TLC will need. count: stop after that many solutions.
    Returns (solutions found, nodes). trail: gets the choices made, in order (SudokuDefs!Refute)."""
    cand = [ALL] * 81
    for i, v in enumerate(p):
        if v:
            for j in PEERS[i]:
                if p[j] == v:
                    return [], 0
                cand[j] &= ~(1 << v)
    found, nodes = [], [0]

    def rec(todo, cand):
        nodes[0] += 1
        if nodes[0] > limit:
            raise Limit
        if not todo:
            found.append([c.bit_length() - 1 for c in cand])
            return len(found) >= (count or 1)
        i = min(sorted(todo), key=lambda c: BITS[cand[c]])
        choice = i
        opts = [(i, v) for v in range(1, 10) if cand[i] >> v & 1]
        if len(opts) > 1:
            best = len(opts)
            for un, u in enumerate(UNITS):
                for d in range(1, 10):
                    if any(c not in todo and cand[c] >> d & 1 for c in u):
                        continue
                    pl = [(c, d) for c in sorted(u) if c in todo and cand[c] >> d & 1]
                    if len(pl) < best:
                        best, opts, choice = len(pl), pl, 81 + 9 * un + d - 1
        if trail is not None:
            trail.append(choice)
        if rng:
            rng.shuffle(opts)
        for c, v in opts:
            c2 = list(cand)
            for j in PEERS[c]:
                if j in todo:
                    c2[j] &= ~(1 << v)
            c2[c] = 1 << v
            if rec(todo - {c}, c2):
                return True
        return False

    cand = [1 << v if v else c for v, c in zip(p, cand)]
    rec(frozenset(i for i in range(81) if not p[i]), cand)
    return found, nodes[0]


def full(rng):
    return solve([0] * 81, rng)[0][0]


def shuffled(g, rng, pairs=False):
    """Another valid grid: digits renamed, rows and columns permuted within and as bands, transposed.
    pairs: each entry holds two digits (ten times the one, plus the other or 0)."""
    m = list(range(1, 10))
    rng.shuffle(m)
    if pairs:
        one = [0] + m
        m = {v: 10 * one[v // 10] + one[v % 10] for v in range(100)}
        m = [m[v] for v in range(1, 100)]

    def lines():
        b = [0, 1, 2]
        rng.shuffle(b)
        res = []
        for x in b:
            t = [0, 1, 2]
            rng.shuffle(t)
            res += [3 * x + y for y in t]
        return res
    rs, cs = lines(), lines()
    t = rng.random() < 0.5
    return [m[(g[9 * rs[c] + cs[r]] if t else g[9 * rs[r] + cs[c]]) - 1] for r in range(9) for c in range(9)]


def hard():
    """(search nodes, puzzle, completion or None) of the puzzles kept for taking a long search."""
    with open(os.path.join(os.path.dirname(__file__), "hard_sudokus.txt")) as f:
        for line in f:
            if line[0] != "#":
                n, p, g = line.split()
                yield int(n), [int(c) for c in p], None if g == "-" else [int(c) for c in g]


def holes(g, k, rng):
    p = list(g)
    for i in rng.sample(range(81), k):
        p[i] = 0
    return p


def minimal(g, rng, tries=81):
    """Givens removed while the completion stays unique."""
    p = list(g)
    order = list(range(81))
    rng.shuffle(order)
    for i in order[:tries]:
        q = list(p)
        q[i] = 0
        try:
            if len(solve(q, limit=400, count=2)[0]) == 1:
                p = q
        except Limit:
            pass
    return p


def unsolvable(rng, g, limit=1500):
    """Puzzles without a completion, together with how they come about; each cheap to refute."""
    res = []
    # two equal givens seeing each other, placed anywhere, early or late
    for _ in range(3):
        p = holes(g, rng.randint(40, 79), rng)
        i = rng.randrange(81)
        j = rng.choice(PEERS[i])
        v = rng.randint(1, 9)
        q = [0] * 81 if rng.random() < 0.5 else p
        q = list(q)
        q[i] = q[j] = v
        res.append(("clash", q))
    # only two givens, equal
    q = [0] * 81
    i = rng.randrange(81)
    q[i] = q[rng.choice(PEERS[i])] = rng.randint(1, 9)
    res.append(("clash", q))
    # a cell that sees all nine digits, no two givens in conflict
    for _ in range(3):
        i = rng.randrange(81)
        q = [0] * 81
        for _try in range(200):
            q = [0] * 81
            ps = rng.sample(PEERS[i], 9)
            for v, j in enumerate(ps, 1):
                q[j] = v
            if all(q[a] != q[b] or not q[a] for a in ps for b in PEERS[a]):
                break
        res.append(("starved", q))
    # a digit that has no place left in a unit
    for _ in range(2):
        r = rng.randrange(9)
        v = rng.randint(1, 9)
        q = [0] * 81
        for c in range(9):
            if not any(q[j] == v for j in PEERS[9 * r + c]):
                opts = [j for j in PEERS[9 * r + c] if j // 9 != r and not q[j] and not any(q[k] == v for k in PEERS[j])]
                if opts:
                    q[rng.choice(opts)] = v
                else:
                    q[9 * r + c] = rng.choice([x for x in range(1, 10) if x != v and
                                               not any(q[k] == x for k in PEERS[9 * r + c])] or [0])
        res.append(("homeless", q))
    # a solvable puzzle with one given changed
    for k in (0, 5, 20, 40, 45, 50, 54):
        p = holes(g, k, rng)
        giv = [i for i in range(81) if p[i]]
        i = rng.choice(giv)
        p[i] = rng.choice([v for v in range(1, 10) if v != p[i]])
        res.append(("changed", p))
        # ... without a direct clash
        free = [i for i in range(81) if not p[i]]
        p2 = holes(g, k, rng)
        free = [i for i in range(81) if not p2[i]]
        rng.shuffle(free)
        for i in free:
            opts = [v for v in range(1, 10) if v != g[i] and all(p2[j] != v for j in PEERS[i])]
            if opts:
                p2[i] = rng.choice(opts)
                break
        res.append(("implied", p2))
    # all but a few entries given, and a fault anywhere: near the gaps or far from them
    for k in (0, 1, 1, 1, 1, 2, 3, 4, 8):
        p = list(g)
        i = rng.randrange(81)
        style = rng.randrange(4)
        if style == 0:    # two entries of a row, column or anywhere exchanged
            j = rng.choice([j for j in (PEERS[i] if rng.random() < 0.7 else range(81)) if g[j] != g[i]])
            p[i], p[j] = p[j], p[i]
        elif style == 1:  # two rows or columns of different bands exchanged
            a, b = rng.sample(range(9), 2)
            p = [p[9 * (b if r == a else a if r == b else r) + c] for r in range(9) for c in range(9)]
            if rng.random() < 0.5:
                p = [p[9 * c + r] for r in range(9) for c in range(9)]
        elif style == 2:  # one entry changed
            p[i] = rng.choice([v for v in range(1, 10) if v != g[i]])
        else:             # a row or column turned
            r = rng.randrange(9)
            t = p[9 * r:9 * r + 9]
            p[9 * r:9 * r + 9] = t[1:] + t[:1]
            if rng.random() < 0.5:
                p = [p[9 * c + r] for r in range(9) for c in range(9)]
        near = [i] + PEERS[i]
        for j in rng.sample(near if rng.random() < 0.3 else range(81), k):
            p[j] = 0
        res.append(("nearly full", p))
    out = []
    for how, p in res:
        try:
            sols, n = solve(p, limit=limit)
        except Limit:
            continue
        out.append((how, p, sols[0] if sols else None))
    return out
