"""P14: following edges across the periodic boundary."""

PROPERTY = 'P14'
LEVEL = 'model_checking'
TECHNIQUE = ('breadth-first search of the complete state graph of the real '
             'tracker coupled to a ground-truth droplet on a ring: every reachable '
             'state within a number of turns x every allowed move of both edges')
NOTE = ('all states within 2 (quick) or 4 (thorough) turns around boxes of up to '
        '9 (14) bins, all moves in which at most one edge wraps and the moves '
        'together are shorter than the box')
RULE = ('a case is one box (bins, spacing, first position, information given to '
        'the tracker); all its reachable states and moves are explored, and in '
        'addition every path of moves up to the path depth')
ASSUMPTIONS = ['at most one edge crosses the boundary from one frame to the next',
               'the edges move less than the box length together per frame']
CHUNK = 1

GEOMETRY = [(0.5, 1.), (-7.25, 0.5), (1000.125, 0.125), (-0.37, 0.1),
            (0., 2.)]


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 10 if quick else 15):
        for g in range(len(GEOMETRY)):
            yield {'kind': 'graph', 'n': n, 'geom': g,
                   'turns': 2 if quick else 4}
    for n in (2, 3, 4, 7, 12, 40, 200):
        for g in range(len(GEOMETRY)):
            yield {'kind': 'tours', 'n': n, 'geom': g}
    for n, depth in (((2, 5), (3, 4), (4, 3), (5, 3)) if quick else
                     ((2, 7), (3, 5), (4, 4), (5, 3), (6, 3))):
        for g in (0, 1, 3):
            for l0 in range(n):
                for w0 in range(n):
                    yield {'kind': 'paths', 'n': n, 'geom': g, 'depth': depth,
                           'start': [l0, w0]}


def moves_of(n, l, r):
    """New edges with at most one wrapping, moving less than the box in all."""
    out = []
    for a in range(-n + 1, n):
        for b in range(-n + 1, n):
            if abs(a) + abs(b) >= n:
                continue
            l2, r2 = l + a, r + b
            if not 0 <= r2 - l2 < n:
                continue
            wraps = abs(l2 // n - l // n) + abs(r2 // n - r // n)
            if wraps <= 1:
                out.append((l2, r2))
    return out


def run(ctx, case):
    from strata.spreading.collect import (add_pbc_multipliers_to_edges,
                                          check_and_update_periodic_info,
                                          init_periodic_info)
    n = case['n']
    x0, dx = GEOMETRY[case['geom']]
    box = n * dx

    def wrapped(k):
        return x0 + dx * (k % n)

    def advance(info, l, r):
        ctx.step()
        info = check_and_update_periodic_info(info, box, wrapped(l), wrapped(r))
        return info, add_pbc_multipliers_to_edges(info, box, wrapped(l),
                                                  wrapped(r))

    def verify(edges, l, r, how):
        want = (x0 + dx * l, x0 + dx * r)
        return ctx.check(
            all(abs(g - w) < 1e-6 * max(1., abs(w)) for g, w in zip(edges, want)),
            lambda: '%d bins of %g from %g, %s: edges reported at %s, true '
            'edges %s' % (n, dx, x0, how() if callable(how) else how,
                          tuple(edges), want))

    if case['kind'] == 'tours':
        return tours(ctx, n, advance, verify)

    starts = [tuple(case['start'])] if case['kind'] == 'paths' else \
        [(l, w) for l in range(n) for w in range(n)]
    if case['kind'] == 'paths':
        l, w = starts[0]
        info, edges = advance(init_periodic_info(), l, l + w)
        if verify(edges, l, l + w, 'first frame %s' % ((l, l + w),)):
            walk(ctx, case['depth'], n, info, [(l, l + w)], advance, verify)
        ctx.sample(bins=n, spacing=dx, first=x0, start=[l, l + w])
        return

    turns = case['turns']
    seen = {}
    queue = []
    for l, w in starts:
        info, edges = advance(init_periodic_info(), l, l + w)
        if not verify(edges, l, l + w, 'first frame %s' % ((l, l + w),)):
            return
        key = (l, l + w, info)
        if key not in seen:
            seen[key] = None
            queue.append(key)
    head = 0
    while head < len(queue):
        key = queue[head]
        head += 1
        l, r, info = key
        ctx.state(n, case['geom'], l, r, tuple(info))
        for l2, r2 in moves_of(n, l, r):
            new, edges = advance(info, l2, r2)
            def how():
                path = [(l2, r2)]
                k = key
                while k is not None:
                    path.append(k[:2])
                    k = seen[k]
                return 'history of true edges (in bins) %s' % path[::-1]
            if not verify(edges, l2, r2, how):
                return
            if abs(l2) > turns * n or abs(r2) > turns * n:
                continue
            nk = (l2, r2, new)
            if nk not in seen:
                seen[nk] = key
                queue.append(nk)
    ctx.trace(len(queue))
    ctx.sample(bins=n, spacing=dx, first=x0, states=len(queue))


def tours(ctx, n, advance, verify):
    """Many turns around the box one way, then back and beyond."""
    sizes = sorted({1, 2, n // 2, n - 1} & set(range(1, n)))
    for width in sorted({0, 1, n // 2, n - 1} & set(range(n))):
        for size in sizes:
            for mode in ('together', 'left first', 'right first', 'left grows'):
                l, r = 0, width
                info, edges = advance(init(), l, r)
                path = [(l, r)]
                for turn in range(3):
                    sign = (1, -1, 1)[turn]
                    for k in range(min((14, 29, 6)[turn] * n // size, 900)):
                        for step in parts(mode, k, sign * size):
                            l2, r2 = l + step[0], r + step[1]
                            if (l2, r2) not in near_moves(n, l, r, l2, r2):
                                continue
                            l, r = l2, r2
                            path.append((l, r))
                            info, edges = advance(info, l, r)
                            if not verify(edges, l, r, lambda: 'steps of %d, width '
                                          '%d, %s: ... %s' % (size, width, mode,
                                                              path[-3:])):
                                return
                ctx.state('tour', n, width, size, mode)
                ctx.trace()
    ctx.sample(bins=n, sizes=sizes)


def init():
    from strata.spreading.collect import init_periodic_info
    return init_periodic_info()


def parts(mode, k, size):
    """Moves of (left, right) that make up one step."""
    if mode == 'together':
        half = size // 2 if size % 2 == 0 else size
        return [(half, half)]
    if mode == 'left first':
        return [(size, 0), (0, size)]
    if mode == 'right first':
        return [(0, size), (size, 0)]
    return [(size, 0)] if k % 3 else [(0, size), (0, size), (0, size)]


def near_moves(n, l, r, l2, r2):
    """The move, if it is in the domain."""
    a, b = l2 - l, r2 - r
    if abs(a) + abs(b) >= n or not 0 <= r2 - l2 < n:
        return ()
    wraps = abs(l2 // n - l // n) + abs(r2 // n - r // n)
    return ((l2, r2),) if wraps <= 1 else ()


def walk(ctx, depth, n, info, path, advance, verify):
    """Every path of moves, without merging states."""
    if depth == 0:
        ctx.trace()
        return
    l, r = path[-1]
    for l2, r2 in moves_of(n, l, r):
        new, edges = advance(info, l2, r2)
        if not verify(edges, l2, r2,
                      lambda: 'history %s' % (path + [(l2, r2)])):
            return
        walk(ctx, depth - 1, n, new, path + [(l2, r2)], advance, verify)
    ctx.state('path', n, tuple(path))
