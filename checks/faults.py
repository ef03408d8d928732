"""Runs one tool with every file operation failing in turn (see p26.py).

Started as its own process with the counting shim (shim.c) preloaded:
    python -m checks.faults '{"tool": .., "init": .., "modes": [..], ...}'
and prints one line of JSON.
"""

import ctypes
import gc
import json
import os
import sys
import warnings

from checks.common import snapshot
from checks.p02 import neighbours, pattern, put, slots
from checks.tools import SINGLE, make_inputs, normal, outputs_of, run_tool

KINDS = ('open for reading', 'open for writing', 'read', 'write', 'close',
         'rename', 'mkdir', 'remove', 'other')
CRASH = (3, 4)


def initial(init, files):
    tree = {}
    for f in files:
        if init == 1:
            tree.update(pattern(0b0011, slots(f), 'earlier'))
            tree.update(neighbours(f))
        elif init == 2:
            tree.update(pattern(0b0101, slots(f), 'earlier'))
        elif init == 3:
            tree.update(pattern(0b0001, slots(f), 'earlier'))
    return tree


def first_free(tree, path):
    n = 1
    while slots(path, n)[n] in tree:
        n += 1
    return slots(path, n)[n]


def lost(before, after, files):
    """Earlier files whose content is not where it may be."""
    out = []
    for path, content in before.items():
        places = [path]
        if path in files:
            places.append(first_free(before, path))
        if not any(after.get(p) == content for p in places):
            out.append(path)
    return out


def incomplete(after, files, new, which):
    return [files[i] for i in which
            if files[i] not in after or after[files[i]] is None or
            normal(after[files[i]]) != normal(new[i])]


class Scene(object):
    """A tool, its inputs and the directory it writes in."""

    def __init__(self, scratch, tool, init, frames):
        self.tool, self.frames = tool, frames
        self.inp, self.work = scratch + '/in', scratch + '/work'
        self.sub = '/new/t' if init == 0 else '/t'
        make_inputs(self.inp, frames)
        self.inputs = snapshot(self.inp)
        put(self.work, {})
        self.run()
        found = snapshot(self.work)
        self.files = [f[1:] for f in outputs_of(tool, self.sub, frames)]
        self.new = [found.get(f) for f in self.files]
        self.before = initial(init, self.files)
        put(self.work, self.before)
        # in another process in which everything has been loaded
        self.run()
        put(self.work, self.before)
        gc.freeze()         # what is loaded now need not be looked at again

    def run(self):
        """The outcome of the run: None or the exception."""
        try:
            run_tool(self.tool, self.inp, self.work + self.sub)
        except BaseException as err:
            out = repr(err)[:200]
            del err
            gc.collect()
            return out
        gc.collect()
        return None

    def judge(self, finished, what):
        """Failures of the directory left behind by a failed run."""
        out = []
        after = snapshot(self.work)
        if snapshot(self.inp) != self.inputs:
            out.append('%s: an input was changed' % what)
            make_inputs(self.inp, self.frames)
        gone = lost(self.before, after, self.files)
        if gone:
            out.append('%s: lost what was in %s; left are %s' % (
                what, gone, sorted(after)))
        bad = incomplete(after, self.files, self.new, finished)
        if bad:
            out.append('%s: %s were finished before but are not whole'
                       % (what, bad))
        return out

    def again(self, what):
        err = self.run()
        out = []
        if err is not None:
            out.append('%s: the run after it raised %s' % (what, err))
        after = snapshot(self.work)
        bad = incomplete(after, self.files, self.new, range(len(self.files)))
        if bad:
            out.append('%s: after running again %s are not whole' % (what, bad))
        gone = lost(self.before, after, self.files)
        if gone:
            out.append('%s: after running again what was in %s is lost' % (
                what, gone))
        return out


def main():
    warnings.simplefilter('ignore')
    args = json.loads(sys.argv[1])
    lib = ctypes.CDLL(None)
    lib.mc_path.restype = ctypes.c_char_p
    scratch = args['scratch']
    root = scratch.encode()
    scene = Scene(scratch, args['tool'], args['init'], args['frames'])
    result = {'fails': [], 'hits': 0, 'runs': 0, 'ops': 0, 'kinds': {},
              'hit_modes': []}
    if any(c is None for c in scene.new):
        result['fails'].append('%s does not write its outputs' % args['tool'])
        print(json.dumps(result))
        return

    lib.mc_arm(root, -1, 0)
    scene.run()
    total = lib.mc_disarm()
    kinds = [lib.mc_kind(i) for i in range(total)]
    paths = [lib.mc_path(i).decode() for i in range(total)]
    result['ops'] = total
    done = []
    for f in scene.files:
        at = [i for i in range(total) if paths[i] == scene.work + '/' + f]
        done.append(max(at) if at else total)

    def strike(k, mode, prefix=''):
        """One run with operation k failing; its description, or None."""
        if mode in CRASH:
            sys.stdout.flush()
            pid = os.fork()
            if not pid:
                lib.mc_arm(root, k, mode)
                scene.run()
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            struck = os.WEXITSTATUS(status) == 99
        else:
            lib.mc_arm(root, k, mode)
            scene.run()
            lib.mc_disarm()
            struck = bool(lib.mc_hit())
        result['runs'] += 1
        result['hits'] += struck
        return struck

    how = ('fails', 'fails for want of space', 'fails half done',
           'never happens as the process dies', 'is half done as the process '
           'dies', 'is not permitted')
    seconds = args.get('second')
    for mode in args['modes']:
        for k in range(total):
            if mode in (2, 4) and kinds[k] not in (1, 3):
                continue
            if mode == 5 and kinds[k] not in (0, 1, 5, 6, 7):
                continue
            if seconds and kinds[k] not in (1, 3, 5, 6):
                continue
            what = '%s (init %d): operation %d (%s %s) %s' % (
                args['tool'], args['init'], k, KINDS[kinds[k]],
                os.path.relpath(paths[k], scratch), how[mode])
            finished = [i for i, d in enumerate(done) if d < k]
            if not seconds:
                put(scene.work, scene.before)
                strike(k, mode)
                result['fails'] += scene.judge(finished, what)
                result['fails'] += scene.again(what)
                kind = KINDS[kinds[k]]
                result['kinds'][kind] = result['kinds'].get(kind, 0) + 1
            else:
                # the run after it fails as well, at every point of writing
                put(scene.work, scene.before)
                strike(k, mode)
                left = snapshot(scene.work)
                for second in range(total + 4):
                    put(scene.work, left)
                    if not strike(second, seconds[0]):
                        if second >= total:
                            break
                        continue
                    result['fails'] += scene.judge([], '%s, then %d %s' % (
                        what, second, how[seconds[0]]))
                result['fails'] += scene.again(what + ' and another')
            if len(result['fails']) > 20:
                break
        result['hit_modes'].append(mode)
    print(json.dumps(result))


if __name__ == '__main__':
    main()
