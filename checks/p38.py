"""P38: chains of tools."""

import itertools
import os
import shutil
import warnings

import numpy as np

from checks.common import (FIELDS, Grid, Quiet, close, gmx_bytes, parse_gmx,
                           parse_plain, parse_simple, plain_bytes, simple_bytes)
from checks.p08 import blocks_of
from checks.p09 import refine

PROPERTY = 'P38'
LEVEL = 'model_checking'
TECHNIQUE = ('exploration of all sequences of steps (averages, limits, combining and '
             'splitting of bins, conversions, selections of frames) up to a depth over '
             'series of maps in three formats, every state made by the real tools from '
             'the files of the one before it and compared with a model of whole series; '
             'states which are reached in several orders are compared with each other')
NOTE = ('all sequences of three steps (four in the thorough tier) from 17, and of four '
        '(five) from 8, from series of 12 frames of 8 x 5 bins in three formats; and '
        'of four (five) from 8 which split and merge the bins of 2 frames of 4 x 3')
RULE = ('a case is one format with one first step and block of second ones; a state is '
        'one series of files')
ASSUMPTIONS = ['a step leaves a bin and a frame', 'limits are between bins',
               'maps have mass where they have particles']
CHUNK = 1

WEIGHTS = (('U', 'M'), ('V', 'M'), ('T', 'N'))
ENCODE = {'gmx': gmx_bytes, 'simple': simple_bytes, 'simple_plain': plain_bytes}
FORMATS = tuple(ENCODE)
FRAMES, NX, NY = 12, 8, 5
CORNER = (-1.25, 0.5)
# frames, bins, their size, number of bins up to which maps are split, and scale of the mass
STARTS = {'droplet': (FRAMES, NX, NY, (0.5, 0.25), 30, 1.),
          'small': (2, 4, 3, (0.5, 0.125), 800, 0.004)}

STEPS = {
    'pairs': {'group': 2},
    'triples': {'group': 3},
    'rolling': {'group': 2, 'rolling': True},
    'wider': {'combine': (2, 1)},
    'higher': {'combine': (1, 2)},
    'three': {'combine': (3, 1)},
    'sides': {'cut': (1, 1, 0, 0)},
    'top': {'cut': (0, 0, 0, 1)},
    'finer': {'split': 2},
    'thirds': {'split': 3},
    'later': {'begin': 1},
    'earlier': {'end': 1},
    'gmx': {'to': 'gmx'},
    'simple': {'to': 'simple'},
    'simple_plain': {'to': 'simple_plain'},
    'several': {'cut': (1, 0, 0, 1), 'group': 2, 'combine': (2, 1)},
    'all': {'cut': (0, 1, 1, 0), 'group': 2, 'combine': (1, 2), 'split': 2, 'end': 1},
}
# the steps of longer sequences, of one format more
LONG = ('pairs', 'triples', 'wider', 'higher', 'sides', 'top', 'finer', 'later')
SMALL = ('finer', 'thirds', 'wider', 'higher', 'sides', 'pairs', 'gmx', 'simple')


def frame(index, nx, ny, spacing, light):
    """A droplet which moves and changes."""
    grid = Grid(nx, ny, CORNER, spacing)
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    k = i * ny + j
    wet = (abs(2 * i - 4 - index % 3) <= 4 - j) | ((k + index) % 7 == 0)
    for l, v in (('N', 1. + (k + index) % 4), ('M', 2. + 0.25 * ((3 * k + index) % 5)),
                 ('T', 300. + 2. * (k % 9) + index), ('U', 0.5 * (k % 11 - 4) + index),
                 ('V', 1. - 0.25 * (k % 8) * (index + 1))):
        grid.values[l][:] = np.where(wet, v * (light if l in 'NM' else 1.), 0.)
    return grid


# -- the model ------------------------------------------------------------------------

def part(grid, i0, i1, j0, j1):
    out = Grid(i1 - i0, j1 - j0, (grid.corner[0] + i0 * grid.spacing[0],
                                  grid.corner[1] + j0 * grid.spacing[1]), grid.spacing)
    for l in FIELDS:
        out.values[l][:] = grid.values[l][i0:i1, j0:j1]
    return out


def mean(grids):
    out = grids[0].copy()
    for l in ('M', 'N'):
        out.values[l][:] = sum(g.values[l] for g in grids) / len(grids)
    for l, w in WEIGHTS:
        total = sum(g.values[w] for g in grids)
        value = sum(g.values[l] * g.values[w] for g in grids)
        out.values[l][:] = np.where(total > 0, value / np.where(total > 0, total, 1.), 0.)
    return out


class State(object):
    """A series of maps by the model; loose: how far conversions may move it."""

    def __init__(self, grids, fmt, loose=(0., 0.), most=30):
        self.grids, self.fmt, self.loose, self.most = grids, fmt, loose, most

    def after(self, step):
        """The series after a step, or None where it is not enabled."""
        opts = STEPS[step]
        grids = self.grids
        grids = grids[opts.get('begin', 0):len(grids) - opts.get('end', 0)]
        size = opts.get('group', 1)
        if len(grids) < size:
            return None
        a, b, c, d = opts.get('cut', (0, 0, 0, 0))
        nx, ny = grids[0].nx, grids[0].ny
        if nx - a - b < 2 or ny - c - d < 2:
            return None
        grids = [part(g, a, nx - b, c, ny - d) for g in grids]
        every = 1 if opts.get('rolling') else size
        if size > 1:
            grids = [mean(grids[k:k + size])
                     for k in range(0, len(grids) - size + 1, every)]
        if 'combine' in opts:
            m, n = opts['combine']
            # the tools need two columns and layers to know a spacing
            if grids[0].nx < 2 * m or grids[0].ny < 2 * n:
                return None
            grids = [blocks_of(g, m, n) for g in grids]
        if 'split' in opts:
            n = opts['split']
            if grids[0].nx * grids[0].ny * n * n > 4 * self.most:
                return None
            grids = [Grid(g.nx * n, g.ny * n, g.corner, [d / n for d in g.spacing],
                          refine(g, n, WEIGHTS)[2]) for g in grids]
        # averages are written in the sparse format
        fmt = opts.get('to', 'gmx')
        if fmt == self.fmt and 'to' in opts:
            return None
        loose = self.loose
        if 'to' in opts and 'gmx' in (fmt, self.fmt):
            loose = [l + 0.5 * s for l, s in zip(loose, grids[0].spacing)]
        return State(grids, fmt, loose, self.most)


# -- the tools ------------------------------------------------------------------------

def parse(raw, fmt):
    """A Grid of a file, by the independent readers."""
    if fmt == 'gmx':
        return parse_gmx(raw)[0]
    data = (parse_simple if fmt == 'simple' else parse_plain)(raw)
    axes = []
    for l in 'XY':
        values = np.sort(data[l])
        axes.append(values[np.append(True, np.diff(values) > 1e-4)])
    (xs, ys) = axes
    if len(xs) * len(ys) != len(data['X']):
        raise ValueError('%d bins on %d x %d positions' % (
            len(data['X']), len(xs), len(ys)))
    d = [(a[-1] - a[0]) / (len(a) - 1) for a in axes]
    grid = Grid(len(xs), len(ys), [a[0] - 0.5 * s for a, s in zip(axes, d)], d)
    i = np.rint((data['X'] - xs[0]) / d[0]).astype(int)
    j = np.rint((data['Y'] - ys[0]) / d[1]).astype(int)
    if len(set(zip(i.tolist(), j.tolist()))) != i.size:
        raise ValueError('bins which share a position')
    for l in FIELDS:
        grid.values[l][i, j] = data[l]
    return grid


def load(folder, fmt):
    """[(number, Grid)] of a series of files."""
    found = []
    for name in sorted(os.listdir(folder)):
        if not (name.startswith('m') and name.endswith('.dat') and len(name) == 10):
            raise ValueError('unexpected file %s' % name)
        with open(folder + '/' + name, 'rb') as fp:
            found.append((int(name[1:6]), parse(fp.read(), fmt)))
    return found


def perform(step, have, source, target, grid):
    """Run one step on the files in `source`; grid is the first of them."""
    from strata.average import average
    from strata.convert import convert
    opts = STEPS[step]
    kw = {'quiet': True}
    first, last = have[0], have[-1]
    if first != 1 or 'begin' in opts:
        kw['begin'] = first + opts.get('begin', 0)
    if 'end' in opts:
        kw['end'] = last - opts['end']
    if 'to' in opts:
        convert(source + '/m', target + '/m', ftype=opts['to'], **kw)
        return
    if 'cut' in opts:
        a, b, c, d = opts['cut']
        (x, y), (dx, dy) = (grid.x, grid.y), grid.spacing
        kw['xlim'] = (x[a] - 0.3 * dx if a else None, x[-1 - b] + 0.3 * dx if b else None)
        kw['ylim'] = (y[c] - 0.3 * dy if c else None, y[-1 - d] + 0.3 * dy if d else None)
    for key in ('group', 'rolling', 'combine'):
        if key in opts:
            kw[key] = opts[key]
    if 'split' in opts:
        kw['supersample'] = opts['split']
    average(source + '/m', target + '/m', **kw)


def compare(found, state):
    """What is wrong with a series of files, or None."""
    if len(found) != len(state.grids):
        return '%d maps, not %d' % (len(found), len(state.grids))
    numbers = [n for n, _ in found]
    if numbers != list(range(numbers[0], numbers[0] + len(numbers))):
        return 'maps with the numbers %s' % numbers
    for n, (_, got), want in zip(numbers, found, state.grids):
        if (got.nx, got.ny) != (want.nx, want.ny):
            return 'map %d has %d x %d bins, not %d x %d' % (
                n, got.nx, got.ny, want.nx, want.ny)
        if not close(got.spacing, want.spacing, 1e-4, 1e-5):
            return 'map %d has spacing %s, not %s' % (n, got.spacing, want.spacing)
        for k in (0, 1):
            if abs(got.corner[k] - want.corner[k]) > state.loose[k] + 2e-5:
                return 'map %d begins at %s, not %s' % (n, got.corner, want.corner)
        mass = want.values['M'] > 1e-12
        for l in FIELDS:
            ref = np.where(mass, want.values[l], 0.)
            if not close(np.where(mass, got.values[l], 0.), ref, 2e-5, 2e-5) or \
                    l == 'M' and not close(got.values[l], ref, 2e-5, 2e-5):
                return '%s of map %d is %s, not %s' % (
                    l, n, got.values[l].tolist(), ref.tolist())
    return None


def key(state):
    """States with the same maps are one, however they were reached."""
    return (state.fmt, tuple(
        (g.nx, g.ny) + tuple(np.round(g.corner + g.spacing, 6)) +
        tuple(np.round(np.concatenate([g.values[l].ravel() for l in FIELDS]), 5) + 0.)
        for g in state.grids))


def explore(ctx, top, path, state, source, depth, alphabet, reached):
    have = [n for n, _ in reached]
    for step in alphabet:
        then = state.after(step)
        if then is None:
            continue
        target = '%s/%d-%s' % (top, len(path), step)
        ctx.step()
        ctx.state(path[0] if path else '', key(then))
        chain = path + (step,)
        found = None
        with ctx.guard('steps %s from %s maps' % (chain, path[0] if path else '')):
            with Quiet() as q:
                perform(step, have, source, target, reached[0][1])
            found = load(target, then.fmt)
            bad = compare(found, then)
            if ctx.check(bad is None, lambda: 'steps %s from %s maps: %s' % (
                    ', '.join(chain[1:]), chain[0], bad)):
                ctx.trace()
                ctx.nontrivial += 1
            else:
                found = None
        if found and depth > 1:
            explore(ctx, top, chain, then, target, depth - 1, alphabet, found)
        if os.path.isdir(target):
            shutil.rmtree(target)


def cases(tier):
    deep = tier != 'quick'
    for fmt in FORMATS:
        for first in STEPS:
            for second in STEPS if deep else (None,):
                yield {'format': fmt, 'first': first, 'second': second, 'start': 'droplet',
                       'alphabet': list(STEPS), 'depth': 4 if deep else 3}
        for first in LONG:
            for second in LONG if deep else (None,):
                yield {'format': fmt, 'first': first, 'second': second, 'start': 'droplet',
                       'alphabet': list(LONG), 'depth': 5 if deep else 4}
        for first in SMALL:
            for second in SMALL if deep else (None,):
                yield {'format': fmt, 'first': first, 'second': second, 'start': 'small',
                       'alphabet': list(SMALL), 'depth': 5 if deep else 4}


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    top = ctx.tmpdir()
    fmt = case['format']
    frames, nx, ny, spacing, most, light = STARTS[case['start']]
    state = State([frame(k, nx, ny, spacing, light) for k in range(frames)], fmt, most=most)
    source = top + '/start'
    os.makedirs(source)
    for k, grid in enumerate(state.grids):
        with open('%s/m%05d.dat' % (source, k + 1), 'wb') as fp:
            fp.write(ENCODE[fmt](grid))
    found = load(source, fmt)
    if not ctx.check(compare(found, state) is None, 'the inputs themselves'):
        return
    path = (fmt,)
    heads = [s for s in (case['first'], case['second']) if s]
    for k, step in enumerate(heads):
        then = state.after(step)
        if then is None:
            return
        target = '%s/head%d' % (top, k)
        with ctx.guard('steps %s' % (path + (step,),)):
            with Quiet():
                perform(step, [n for n, _ in found], source, target, found[0][1])
            found = load(target, then.fmt)
            bad = compare(found, then)
            if not ctx.check(bad is None, lambda: 'steps %s from %s maps: %s' % (
                    ', '.join(path[1:] + (step,)), fmt, bad)):
                return
        path, state, source = path + (step,), then, target
    explore(ctx, top, path, state, source, case['depth'] - len(heads),
            case['alphabet'], found)
