"""P01: frame discovery, bundling and output numbering."""

import itertools
import os
import warnings

PROPERTY = 'P01'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state enumeration of every file set, begin, end, bundle '
             'size and rolling choice within bounds, each run on the real code '
             'and compared with an independent model of the run of frames')
NOTE = ('exhaustive over all subsets of a window of frame numbers (also windows '
        'crossing digit boundaries) and all begin/end/bundle/rolling choices; '
        'of longer series (up to 130 frames, thorough 1025) those with at most one hole at set '
        'places')
RULE = ('a case is one set of files on disk at one number offset; inside it '
        'every begin, end, extension, bundle size and rolling choice is run')
ASSUMPTIONS = [
    'frame numbers, begin and end are non-negative integers, bundles positive',
]
CHUNK = 16


# what comes before and after the number
ODD = (('%d', '.dat'), ('%s%%', '.%03d'), ('a b ', '.d t'), ('{}', '{0}'),
       ('[0-9]*', '.*'), ('f?', ''), ('\xe4-', '.\xf6'), ('1', '0'), ('-', '.dat.gz'),
       ('~f', '.'), ('f.00001.dat', '.DAT'), ('$HOME#', '#'), ('0', '00001'),
       ("it's\\", '"'))


def cases(tier):
    n = 8 if tier == 'quick' else 9
    groups = [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4, 5]
    offsets = [0, 96] if tier == 'quick' else [0, 7, 96, 99995]
    for off in offsets:
        for bits in range(1 << n):
            yield {'n': n, 'offset': off, 'bits': bits, 'groups': groups,
                   'style': ['flat', 'sub', 'cwd'][bits % 3]}
    if tier == 'quick':
        for bits in range(1 << 5):
            yield {'n': 5, 'offset': 99997, 'bits': bits, 'groups': groups,
                   'style': 'flat'}
    for bits in range(1 << 5):
        yield {'n': 5, 'offset': (99997, 999997)[bits % 2], 'bits': bits,
               'groups': groups, 'style': 'flat'}
        for odd in range(len(ODD)):
            yield {'n': 5, 'offset': (0, 7, 97)[(bits + odd) % 3], 'bits': bits,
                   'groups': groups, 'style': 'odd', 'odd': odd}
    for off in LONG:
        for length in LENGTHS if tier == 'quick' else LENGTHS + MORE:
            yield {'kind': 'long', 'offset': off, 'n': length}


LONG = (0, 1, 93, 9985, 99940)
LENGTHS = (11, 17, 33, 65, 101, 130)
MORE = (12, 31, 64, 100, 257, 1025)


def name(base, num, ext):
    digits = str(num)
    return base + '0' * max(0, 5 - len(digits)) + digits + ext


def model_run(have, begin, end):
    out = []
    k = begin
    while k in have and (end is None or k <= end):
        out.append(k)
        k += 1
    return out


def model_windows(run, group, rolling):
    step = 1 if rolling else group
    out = []
    i = 0
    while i + group <= len(run):
        out.append(run[i:i + group])
        i += step
    return out


def run(ctx, case):
    from strata.utils import (find_datamap_files, find_groups_to_singles,
                              find_singles_to_singles)
    warnings.simplefilter('ignore')
    root = ctx.tmpdir()
    off, n = case['offset'], case['n']
    if case.get('kind') == 'long':
        return run_long(ctx, root, off, n)
    have = {off + i for i in range(n) if case['bits'] >> i & 1}
    other = {off + i for i in range(n)} - have

    cwd = os.getcwd()
    try:
        if case['style'] == 'cwd':
            os.chdir(root)
            base, obase = 'f', 'o'
        elif case['style'] == 'odd':
            base, ext = ODD[case['odd']]
            base = os.path.join(root, base)
            for k in have:
                open(name(base, k, ext), 'w').close()
            explore(ctx, case, base, base + 'o', ext, have, off, n,
                    find_datamap_files, find_singles_to_singles,
                    find_groups_to_singles)
            return
        elif case['style'] == 'sub':
            os.makedirs(os.path.join(root, 'd.dat', 's_1'))
            base = os.path.join(root, 'd.dat', 's_1', 'flow_0000')
            obase = os.path.join(root, 'out', '')
        else:
            base, obase = os.path.join(root, 'f'), os.path.join(root, 'g')
        for k in have:
            open(name(base, k, '.dat'), 'w').close()
        # frames of another extension fill exactly the holes
        for k in other:
            open(name(base, k, '.xvg'), 'w').close()

        for ext, files in (('.dat', have), ('.xvg', other)):
            explore(ctx, case, base, obase, ext, files, off, n,
                    find_datamap_files, find_singles_to_singles,
                    find_groups_to_singles)
    finally:
        os.chdir(cwd)


def explore(ctx, case, base, obase, ext, files, off, n,
            find_datamap_files, find_singles_to_singles,
            find_groups_to_singles):
    begins = range(max(0, off - 1), off + n + 1)
    for begin in begins:
        for end in itertools.chain([None], range(max(0, off - 1), off + n + 2)):
            kw = {'begin': begin, 'ext': ext}
            if end is not None:
                kw['end'] = end
            if ext == '.dat' and (begin + case['bits']) % 2:
                kw.pop('ext')        # the documented default
                if begin == 1:
                    kw.pop('begin')  # likewise
            where = 'base=%s files=%s %s' % (base, sorted(files), kw)
            want = model_run(files, begin, end)
            ctx.state(ext, case['bits'], off, begin, end)
            ctx.step(len(want) + 1)

            got = list(find_datamap_files(base, **kw))
            ctx.trace()
            ctx.check(got == [name(base, k, ext) for k in want],
                      lambda: 'find_datamap_files %s: got %r want frames %r'
                      % (where, got, want))

            got = list(find_singles_to_singles(base, obase, **kw))
            ctx.trace()
            ctx.check(got == [(name(base, k, ext), name(obase, k, ext))
                              for k in want],
                      lambda: 'find_singles_to_singles %s: got %r want %r'
                      % (where, got, want))
            got = list(find_singles_to_singles(base, obase, outext='.o', **kw))
            ctx.check(got == [(name(base, k, ext), name(obase, k, '.o'))
                              for k in want],
                      lambda: 'find_singles_to_singles outext %s: got %r '
                      'want %r' % (where, got, want))

            for group in case['groups']:
                for rolling in (False, True):
                    wins = model_windows(want, group, rolling)
                    got = list(find_datamap_files(base, group=group,
                                                  rolling=rolling, **kw))
                    ctx.trace()
                    ctx.check(got == [[name(base, k, ext) for k in w]
                                      for w in wins],
                              lambda: 'bundles %s group=%d rolling=%s: got %r '
                              'want %r' % (where, group, rolling, got, wins))
                    first = begin if rolling else -(-begin // group)
                    got = list(find_groups_to_singles(
                        base, obase, group=group, rolling=rolling,
                        outext='.out', **kw))
                    ctx.trace()
                    ctx.check(got == [([name(base, k, ext) for k in w],
                                       name(obase, first + i, '.out'))
                                      for i, w in enumerate(wins)],
                              lambda: 'bundle outputs %s group=%d rolling=%s: '
                              'got %r want %r from %d'
                              % (where, group, rolling, got, wins, first))
            if not want:
                continue
            got = list(find_groups_to_singles(base, obase, **kw))
            ctx.check([(list(a), b) for a, b in got] ==
                      [([name(base, k, ext)], name(obase, k, ext))
                       for k in want],
                      lambda: 'default bundles %s: got %r want %r'
                      % (where, got, want))
    ctx.sample(files=sorted(files), ext=ext, begin=off, end=None,
               frames=model_run(files, off, None))


def run_long(ctx, root, off, n):
    """Series of many frames, with a hole at some places, in bundles of any size."""
    from strata.utils import (find_datamap_files, find_groups_to_singles,
                              find_singles_to_singles)
    base, obase = root + '/f', root + '/o'
    groups = sorted({1, 2, 3, 5, 7, 9, 10, 12, 16, 64, 100, n // 2, n - 1, n, n + 1})
    for k in range(n):
        open(name(base, off + k, '.dat'), 'w').close()
    for hole in (None, 1, 9, 10, n // 2, n - 2):
        have = set(range(off, off + n)) - {hole if hole is None else off + hole}
        if hole is not None:
            os.remove(name(base, off + hole, '.dat'))
        for begin in sorted({off, off + 1, off + 9, off + 10, off + n // 2 + 1}):
            for end in (None, off + 8, off + 9, off + 10, off + n - 2, off + n + 50):
                kw = {'begin': begin}
                if end is not None:
                    kw['end'] = end
                want = model_run(have, begin, end)
                where = '%d files from %d but %r, %s' % (n, off, hole, kw)
                ctx.state(n, off, hole, begin, end)
                ctx.step(len(want) + 1)
                got = list(find_datamap_files(base, **kw))
                ctx.check(got == [name(base, k, '.dat') for k in want],
                          lambda: 'find_datamap_files %s: %d files, not %d' % (
                              where, len(got), len(want)))
                got = list(find_singles_to_singles(base, obase, **kw))
                ctx.check(got == [(name(base, k, '.dat'), name(obase, k, '.dat'))
                                  for k in want],
                          lambda: 'find_singles_to_singles %s: %d files, not %d' % (
                              where, len(got), len(want)))
                for group in groups if begin in (off, off + 10) else (3, 10):
                    for rolling in (False, True):
                        wins = model_windows(want, group, rolling)
                        first = begin if rolling else -(-begin // group)
                        got = [(list(a), b) for a, b in find_groups_to_singles(
                            base, obase, group=group, rolling=rolling, **kw)]
                        ctx.check(got == [
                            ([name(base, k, '.dat') for k in w],
                             name(obase, first + i, '.dat'))
                            for i, w in enumerate(wins)], lambda:
                            'bundles of %d%s, %s: %d, not %d; first %s' % (
                                group, ' rolling' if rolling else '', where, len(got),
                                len(wins), got[:1]))
                ctx.trace()
        if hole is not None:
            open(name(base, off + hole, '.dat'), 'w').close()
    ctx.sample(frames=n, first=off)
