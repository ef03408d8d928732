"""P02: writing never destroys what is already there."""

import itertools
import os
import warnings

from checks.common import snapshot
from checks.tools import (SERIES, SINGLE, make_inputs, normal, outputs_of,
                          run_tool)

PROPERTY = 'P02'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of directory states: every writer run '
             'from every pattern of existing targets, backups and neighbours, '
             'and all sequences of writes, deletions and renames over several '
             'writers, the real directory compared with a model of it after '
             'every step')
NOTE = ('exhaustive for 18 writers x 16 patterns of target and backups x 9 path '
        'styles, and all sequences of 4 (quick) or 5 (thorough) operations from '
        'all patterns')
RULE = ('a case is one writer and path style over all initial patterns, or all '
        'operation sequences from one initial pattern')
ASSUMPTIONS = ['data files (figures are not numbered outputs)', 'the file '
               'system holds no dangling symbolic links at the paths used']
CHUNK = 1

STYLES = ('absolute', 'bare', 'dot', 'sub', 'up', 'missing', 'nested',
          'link', 'above link')
NAMES = ('t', 't.dat', 'a b.dat', '#x.1#', '.hidden', 'x#.xvg', 'no.ext.at.all',
         '\xe4\xf6.dat', '%d.dat', 'a{}.xvg', "it's", '-o.dat', '~t', '$HOME')
FAST = ('map', 'map-simple', 'map-plain', 'spreading-view', 'sample')


def cases(tier):
    thorough = tier == 'thorough'
    for tool in list(SINGLE) + list(SERIES):
        for style in range(len(STYLES)):
            yield {'kind': 'writer', 'tool': tool, 'style': style}
        yield {'kind': 'special', 'tool': tool}
    for n in range(len(NAMES)):
        yield {'kind': 'names', 'name': n}
    for bits in range(16):
        for first in range(len(OPS)):
            yield {'kind': 'history', 'bits': bits, 'first': first,
                   'depth': 5 if thorough else 4}
    for first in list(SINGLE) + list(SERIES):
        yield {'kind': 'pairs', 'first': first}


# -- the model of a directory ---------------------------------------------------

def write_model(tree, path, new):
    """Effect of writing `new` at the path on {path: content}."""
    tree = dict(tree)
    folder, name = os.path.split(path)
    if path in tree:
        n = 1
        while os.path.join(folder, '#%s.%d#' % (name, n)) in tree:
            n += 1
        tree[os.path.join(folder, '#%s.%d#' % (name, n))] = tree[path]
    tree[path] = new
    while folder:
        tree.setdefault(folder, None)
        folder = os.path.dirname(folder)
    return tree


def plain(tree):
    return {k: normal(v) if v is not None else None for k, v in tree.items()}


def describe(tree, ref=()):
    return {k: (v if v is None or len(v) < 24 else '%d bytes %r..' % (
        len(v), v[:12])) for k, v in sorted(tree.items())}


def compare(ctx, what, root, want):
    got = plain(snapshot(root))
    want = plain(want)
    if got == want:
        ctx.trace()
        return True
    lost = sorted(k for k in want if k not in got)
    extra = sorted(k for k in got if k not in want)
    differ = sorted(k for k in want if k in got and got[k] != want[k])
    return ctx.fail('%s: missing %s, unexpected %s, changed %s' % (
        what, lost, extra, differ))


def put(root, tree):
    """Make the directory hold exactly the tree."""
    import shutil
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)
    for path, content in sorted(tree.items(), key=lambda kv: kv[0].count('/')):
        full = os.path.join(root, path)
        if content is None:
            os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'wb') as fp:
                fp.write(content)


_REFS = {}


def reference(tool, inp, base, **kw):
    """{name: content} of what the tool writes into an empty directory."""
    clean = base + '/ref'
    put(clean, {})
    run_tool(tool, inp, clean + '/t', **kw)
    return snapshot(clean)


def ref_contents(tool, inp, base, out, frames=3, **kw):
    """Contents of the outputs in order (any base path)."""
    found = reference(tool, inp, base, **kw)
    names = [os.path.basename(p) for p in outputs_of(tool, 't', frames)]
    if sorted(found) != sorted(names):
        return None
    return [found[n] for n in names]


def pattern(bits, names, tag):
    """Files of a pattern of bits for the names."""
    return {n: ('%s %s\n' % (tag, n)).encode() * (1 + k)
            for k, n in enumerate(names) if bits >> k & 1}


def slots(path, n=3):
    folder, name = os.path.split(path)
    return [path] + [os.path.join(folder, '#%s.%d#' % (name, k))
                     for k in range(1, n + 1)]


def neighbours(path):
    folder, name = os.path.split(path)
    return {os.path.join(folder, k): b'neighbour %s' % k.encode() for k in (
        name + '.bak', name + '~', '#%s#' % name, '#%s.0#' % name, '#%s.01#' % name,
        '#%s.1' % name, '%s.1#' % name, '#x%s.1#' % name, 'other')}


class inside(object):
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.path)

    def __exit__(self, *exc):
        os.chdir(self.old)


def run(ctx, case):
    warnings.simplefilter('ignore')
    {'writer': run_writer, 'special': run_special, 'names': run_names,
     'history': run_history, 'pairs': run_pairs}[case['kind']](ctx, case)


def style_paths(style, root):
    """(path handed to the tool, path below the root, directories there)."""
    return {
        'absolute': (root + '/t', 't', {}),
        'bare': ('t', 't', {}),
        'dot': ('./t', 't', {}),
        'sub': ('d/e/t', 'd/e/t', {'d': None, 'd/e': None}),
        'up': ('d/../d/t', 'd/t', {'d': None}),
        'missing': (root + '/new/t', 'new/t', {}),
        'nested': ('a/b/c/t', 'a/b/c/t', {}),
        # `l` is made a symbolic link to d/e
        'link': ('l/t', 'd/e/t', {'d': None, 'd/e': None, 'l': None}),
        'above link': ('l/../t', 'd/t', {'d': None, 'd/e': None, 'l': None}),
    }[style]


def run_writer(ctx, case):
    tool, style = case['tool'], STYLES[case['style']]
    base = ctx.tmpdir()
    inp, root = base + '/in', base + '/work'
    make_inputs(inp)
    inputs = snapshot(inp)
    new = ref_contents(tool, inp, base, 't')
    if not ctx.check(new is not None, '%s: outputs into an empty directory are '
                     'not one per frame' % tool):
        return
    empty = style in ('missing', 'nested')
    arg, below, dirs = style_paths(style, root)
    files = outputs_of(tool, below, 3)
    for bits in range(1 if empty else 16):
        for extra in (False, True):
            if empty and extra:
                continue
            tree = dict(dirs)
            for k, f in enumerate(files):
                # another pattern for every file of a series
                b = (bits, bits >> 1 | (bits & 1) << 3, bits ^ 15)[k]
                tree.update(pattern(b, slots(f), 'earlier'))
                if extra:
                    tree.update(neighbours(f))
            put(root, tree)
            if 'l' in dirs:
                os.rmdir(root + '/l')
                os.symlink('d/e', root + '/l')
            want = dict(tree)
            for f, content in zip(files, new):
                want = write_model(want, f, content)
            ctx.state(tool, style, bits, extra)
            ctx.step()
            what = '%s to %r over %s' % (tool, arg, sorted(tree))
            with ctx.guard(what):
                with inside(root):
                    run_tool(tool, inp, arg)
                compare(ctx, what, root, want)
    ctx.check(snapshot(inp) == inputs, '%s changed its input' % tool)
    ctx.sample(tool=tool, style=style)


def run_special(ctx, case):
    """Many backups, directories in the way, links and empty files."""
    tool = case['tool']
    base = ctx.tmpdir()
    inp, root = base + '/in', base + '/work'
    make_inputs(inp)
    new = ref_contents(tool, inp, base, 't')
    if not ctx.check(new is not None, '%s: outputs' % tool):
        return
    files = outputs_of(tool, 't', 3)
    for count in (8, 9, 10, 11, 12, 19, 33, 99, 100, 101, 130):
        for hole in (None, 1, 2, count) if count < 13 else (None, count - 1):
            tree = {}
            for f in files:
                tree.update(pattern((1 << count + 1) - 1, slots(f, count), 'old'))
                if hole is not None:
                    del tree[slots(f, count)[hole]]
            check_write(ctx, tool, inp, root, tree, files, new,
                        'with %d backups but %s' % (count, hole))
    for kind in ('folder', 'folder+file'):
        tree = {}
        for f in files:
            s = slots(f)
            tree[s[0]] = b'old'
            tree[s[1]] = None
            if kind != 'folder':
                tree[s[1] + '/inner'] = b'inner'
                tree[s[2]] = b'second'
        check_write(ctx, tool, inp, root, tree, files, new,
                    'with a %s as first backup' % kind)
    for content in (b'', b'\0', b'x' * 100000):
        tree = {f: content for f in files}
        check_write(ctx, tool, inp, root, tree, files, new,
                    'over files of %d bytes' % len(content))
    # links: what they point to stays as it is
    for hard in (False, True):
        put(root, {f: b'' for f in files})
        put(base + '/far', {f: b'far away ' + f.encode() for f in files})
        far = snapshot(base + '/far')
        for f in files:
            os.remove(root + '/' + f)
            (os.link if hard else os.symlink)(base + '/far/' + f, root + '/' + f)
        want = {f: far[f] for f in files}
        for f, content in zip(files, new):
            want = write_model(want, f, content)
        what = '%s over %s links' % (tool, 'hard' if hard else 'symbolic')
        ctx.state(tool, 'link', hard)
        ctx.step()
        with ctx.guard(what):
            run_tool(tool, inp, root + '/t')
            compare(ctx, what, root, want)
            ctx.check(snapshot(base + '/far') == far,
                      '%s: the linked file changed' % what)


def check_write(ctx, tool, inp, root, tree, files, new, note):
    put(root, tree)
    want = dict(tree)
    for f, content in zip(files, new):
        want = write_model(want, f, content)
    what = '%s %s' % (tool, note)
    ctx.state(tool, note)
    ctx.step()
    with ctx.guard(what):
        run_tool(tool, inp, root + '/t')
        compare(ctx, what, root, want)


def run_names(ctx, case):
    name = NAMES[case['name']]
    base = ctx.tmpdir()
    inp, root = base + '/in', base + '/work'
    make_inputs(inp)
    for tool in list(SINGLE) + list(SERIES):
        new = ref_contents(tool, inp, base, 't')
        if new is None:
            ctx.fail('%s: outputs' % tool)
            continue
        for bare in (False, True):
            files = outputs_of(tool, name, 3)
            for bits in range(8):
                tree = {}
                for f in files:
                    tree.update(pattern(bits, slots(f, 2), 'old'))
                put(root, tree)
                want = dict(tree)
                for f, content in zip(files, new):
                    want = write_model(want, f, content)
                what = '%s as %r over %s' % (tool, name, sorted(tree))
                ctx.state(tool, name, bits, bare)
                ctx.step()
                with ctx.guard(what):
                    with inside(root):
                        run_tool(tool, inp, name if bare else root + '/' + name)
                    compare(ctx, what, root, want)


# -- histories --------------------------------------------------------------------

OPS = tuple(('write', tool, target) for tool in FAST for target in ('t', 'u')
            if not (target == 'u' and tool in ('map-plain', 'sample'))) + (
    ('delete', 't'), ('delete', '#t.1#'), ('delete', '#t.2#'),
    ('move', 't', 'u'), ('nest', 't'))


def apply_model(tree, op, contents, step):
    """Next state, or None where the operation is not possible."""
    if op[0] == 'write':
        return write_model(tree, op[2], contents[op[1], step])
    if op[0] == 'delete':
        if op[1] not in tree:
            return None
        return {k: v for k, v in tree.items() if k != op[1]}
    if op[0] == 'move':
        if op[1] not in tree or op[2] in tree:
            return None
        tree = dict(tree)
        tree[op[2]] = tree.pop(op[1])
        return tree
    # write backups of a backup
    return write_model(tree, '#%s.1#' % op[1], contents['map', step])


def apply_real(root, inp, op, step):
    if op[0] == 'write':
        run_tool(op[1], inp, root + '/' + op[2], **version(op[1], step))
    elif op[0] == 'delete':
        os.remove(root + '/' + op[1])
    elif op[0] == 'move':
        os.rename(root + '/' + op[1], root + '/' + op[2])
    else:
        run_tool('map', inp, '%s/#%s.1#' % (root, op[1]), frame=step)


def version(tool, step):
    """Settings which make every step write something else."""
    if tool.startswith('map'):
        return {'frame': step}
    if tool == 'spreading-view':
        return {'R': 1. + step}
    return {'xlim': (-5. - step, None), 'sum': bool(step % 2)} if step else {}


def run_history(ctx, case):
    base = ctx.tmpdir()
    inp, root = base + '/in', base + '/work'
    make_inputs(inp)
    contents = {}
    for tool in FAST:
        for step in range(case['depth']):
            got = ref_contents(tool, inp, base, 't', **version(tool, step))
            if got is None:
                return ctx.fail('%s does not write its output' % tool)
            contents[tool, step] = got[0]
    start = pattern(case['bits'], slots('t'), 'earlier')
    label = {}
    for key, value in contents.items():
        label.setdefault(normal(value), key)
    # breadth first over the model states; every transition is done for real
    level = {freeze(start): (start, ())}
    for step in range(case['depth']):
        following = {}
        ops = [OPS[case['first']]] if step == 0 else OPS
        for tree, path in level.values():
            for op in ops:
                want = apply_model(tree, op, contents, step)
                if want is None:
                    continue
                put(root, tree)
                what = '%s after %s from %s' % (op, list(path), sorted(start))
                ctx.step()
                with ctx.guard(what):
                    apply_real(root, inp, op, step)
                    if not compare(ctx, what, root, want):
                        continue
                key = freeze(want)
                ctx.state(case['bits'], step, sorted(
                    (k, label.get(normal(v), v)) for k, v in want.items()))
                if key not in following:
                    following[key] = (want, path + (op,))
        level = prune(following, step, case['depth'])
    ctx.sample(start=sorted(start), states=len(level))


def prune(states, step, depth):
    """States equal in which names hold the same age of content behave alike."""
    seen = {}
    for key, (tree, path) in states.items():
        kinds = frozenset(tree)
        if step < depth - 2:
            seen[key] = (tree, path)
        else:
            seen.setdefault(kinds, (tree, path))
    return seen


def freeze(tree):
    return frozenset((k, hash(normal(v)) if v is not None else None)
                     for k, v in tree.items())


def run_pairs(ctx, case):
    """Every writer after every other on the same path, twice over."""
    base = ctx.tmpdir()
    inp, root = base + '/in', base + '/work'
    make_inputs(inp)
    new = {}
    for tool in list(SINGLE) + list(SERIES):
        new[tool] = ref_contents(tool, inp, base, 't')
        if new[tool] is None:
            return ctx.fail('%s does not write its outputs' % tool)
    a = case['first']
    for b in list(SINGLE) + list(SERIES):
        put(root, {})
        want = {}
        for k, tool in enumerate((a, b, a, b)):
            what = '%s after %s' % (tool, [a, b, a][:k])
            # single files on the path of the first numbered file of a series
            other = (b, a)[k % 2]
            arg = root + '/t'
            files = outputs_of(tool, 't', 3)
            if tool in SINGLE and other in SERIES:
                files = outputs_of(other, 't', 3)[:1]
                arg = root + '/' + files[0]
            for f, content in zip(files, new[tool]):
                want = write_model(want, f, content)
            ctx.state(a, b, k)
            ctx.step()
            with ctx.guard(what):
                run_tool(tool, inp, arg)
            if not compare(ctx, what, root, want):
                break
