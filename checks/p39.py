"""P39: runs at the same time."""

import itertools
import os
import shutil
import signal
import sys
import tempfile
import warnings

import numpy as np

from checks.common import snapshot
from checks.tools import SERIES, SINGLE, make_inputs, normal, outputs_of, run_tool

PROPERTY = 'P39'
LEVEL = 'model_checking'
TECHNIQUE = ('stateless exploration of the real code under a controlled scheduler: two '
             'processes are stopped before every look at and every operation on a file, '
             'and all schedules up to a number of preemptions are run')
NOTE = ('all schedules of one preemption of all pairs of 18 tools and of two (three) '
        'preemptions of pairs of some, from directories which are missing, empty or hold '
        'results, or with the same names in two directories')
RULE = ('a case is one pair of tools from one initial directory with all its schedules '
        'up to a bound; a state is one schedule')
ASSUMPTIONS = ['the runs write to different paths', 'steps between two uses of a file '
               'touch no other state that runs share']
CHUNK = 1

TOOLS = sorted(SINGLE) + sorted(SERIES)
# short ones, for more preemptions
SHORT = ('map', 'map-plain', 'convert-simple', 'average', 'spreading-collect',
         'interface-collect', 'sample')
LONGER = ('average', 'convert-simple')
INITS = ('missing', 'deep', 'empty', 'results', 'apart')
FRAMES = 2


# -- one process under the scheduler --------------------------------------------------

class Proc(object):
    """A tool which waits before each use of a file below `root`."""

    def __init__(self, root, tool, inp, out):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                signal.alarm(0)
                os.close(r1)
                os.close(w2)
                code = self._child(root, tool, inp, out, w1, r2)
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        self.come, self.go = r1, w2
        self.code = None
        self.events = 0
        self._wait()

    @staticmethod
    def _child(root, tool, inp, out, come, go):
        inside = [False]

        def point(path, always=False):
            if inside[0]:
                return
            inside[0] = True
            try:
                try:
                    name = os.fspath(path)
                    name = os.path.abspath(os.fsdecode(name))
                except Exception:
                    return
                if name.startswith(root) or always and not name.startswith(
                        ('/dev/', '/proc/')):
                    os.write(come, b'e')
                    if not os.read(go, 1):
                        os._exit(71)
            finally:
                inside[0] = False

        def hook(event, args):
            if event == 'open':
                point(args[0], args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            elif event in ('os.mkdir', 'os.rename', 'os.remove', 'os.rmdir',
                         'os.listdir', 'os.scandir', 'os.truncate', 'os.link',
                         'os.symlink', 'shutil.move', 'shutil.copyfile') and args:
                point(args[0], True)

        def looking(func):
            def look(path, *args, **kwargs):
                point(path)
                return func(path, *args, **kwargs)
            return look

        os.stat, os.lstat, os.access = (looking(f) for f in (os.stat, os.lstat, os.access))
        os.chdir(root + '/work')
        os.environ.update(TMPDIR=root + '/tmp', HOME=root + '/home')
        tempfile.tempdir = None
        sys.addaudithook(hook)
        try:
            run_tool(tool, inp, out)
        except BaseException:
            return 1
        return 0

    def _wait(self):
        if not os.read(self.come, 1):
            _, status = os.waitpid(self.pid, 0)
            self.code = os.waitstatus_to_exitcode(status)
            os.close(self.come)
            os.close(self.go)

    def advance(self):
        """To the next use of a file, or the end."""
        if self.code is None:
            self.events += 1
            os.write(self.go, b'g')
            self._wait()

    def finish(self):
        while self.code is None:
            self.advance()

    def kill(self):
        if self.code is None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.come)
            os.close(self.go)
            self.code = -9


def prepare(root, init, tools):
    """Fresh directory; paths of the outputs of both runs."""
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)
    for name in ('/work', '/tmp', '/home'):
        os.makedirs(root + name)
    make_inputs(root + '/in', FRAMES)
    folder = root + '/out' if init != 'deep' else root + '/out/of/runs'
    if init in ('empty', 'results'):
        os.makedirs(folder)
    outs = []
    for tool, name in zip(tools, 'ab'):
        out = folder + '/' + name + ('' if tool in SERIES else '.xvg')
        if init == 'apart':
            out = '%s/%s/r%s' % (folder, name, '' if tool in SERIES else '.xvg')
        outs.append(out)
        if init == 'results':
            for path in outputs_of(tool, out, FRAMES):
                with open(path, 'wb') as fp:
                    fp.write(b'earlier ' + os.path.basename(path).encode())
    return outs


def tree(root):
    return {k: v if v is None else normal(v) for k, v in snapshot(root).items()
            if not k.startswith('tmp')}


def schedule(root, init, tools, first, stops):
    """Run both; stops: how many uses of files each turn takes."""
    outs = prepare(root, init, tools)
    procs = []
    try:
        for tool, out in zip(tools, outs):
            procs.append(Proc(root, tool, root + '/in', out))
        turn = first
        for n in stops:
            for _ in range(n):
                procs[turn].advance()
            turn = 1 - turn
        procs[turn].finish()
        procs[1 - turn].finish()
        return [p.code for p in procs], [p.events for p in procs], tree(root)
    finally:
        for p in procs:
            p.kill()


def cases(tier):
    deep = tier != 'quick'
    for i, a in enumerate(TOOLS):
        for b in TOOLS[i:]:
            for init in INITS:
                if deep or init == 'missing' or a == b:
                    yield {'tools': [a, b], 'init': init, 'bound': 1, 'part': [0, 1]}
            if a == b != 'interface-view' or deep and 'interface-view' not in (a, b):
                for k in range(4):
                    yield {'tools': [a, b], 'init': 'missing', 'bound': 2, 'part': [k, 4]}
    for a in SHORT:
        for init in INITS[1:] if deep else INITS[3:4]:
            yield {'tools': [a, a], 'init': init, 'bound': 2, 'part': [0, 1]}
        if deep and a in LONGER or a.startswith('map'):
            n = 40 if deep else 1
            for k in range(n):
                yield {'tools': [a, a], 'init': 'missing', 'bound': 3, 'part': [k, n]}


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None
    import strata.strata  # noqa: everything is loaded before processes start
    root = ctx.tmpdir() + '/s'
    tools, init = case['tools'], case['init']
    codes, lengths, want = schedule(root, init, tools, 0, ())
    ctx.step(sum(lengths))
    if not ctx.check(codes == [0, 0], lambda: '%s one after the other from %s: %s' % (
            tools, init, codes)):
        return
    todo = []
    for first in (0, 1):
        n, m = lengths[first], lengths[1 - first]
        # turns of at least one step; the last turns go to the end
        ranges = [range(0, n + 1), range(1, m + 1), range(1, n)][:case['bound']]
        todo += [(first, stops) for stops in itertools.product(*ranges)]
    part, parts = case['part']
    todo = todo[part::parts]
    for first, stops in todo:
        ctx.state(tuple(tools), init, first, stops)
        codes, events, got = schedule(root, init, tools, first, stops)
        ctx.step(sum(events))
        what = '%s from %s, %d first, turns of %s' % (tools, init, first, stops)
        ok = ctx.check(codes == [0, 0], lambda: '%s: exit codes %s' % (what, codes))
        ok = ok and ctx.check(got == want, lambda: '%s: %s' % (what, sorted(
            k for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0))))
        if ok:
            ctx.trace()
            ctx.nontrivial += 1
    ctx.sample(tools=tools, init=init, events=lengths, schedules=len(todo))
