"""Threads get the results they would get alone"""
import os
import sys
import threading

from hypothesis import strategies as st

from . import boot, c21, gen
from .c24 import alike
from .core import Sub
from .lib import *

RULE = """A case is a setting (default units, preferred units, Unicode), a pool of operands shared by the threads
and a second one of which every thread has its own, two or three programs of up to eight operations (about 250
pure ones on any operand, the in-place forms on the thread's own operands, definitions of units under
names of their own and their later use, parsing and formatting), and a schedule: the numbers of source lines after
which another thread goes on. The threads are stopped and continued at the lines of the
library, so that the schedule is exact and can be replayed. Oracle: the same programs one after another: the same results and errors, the same
private operands afterwards, the shared ones and the settings unchanged, every defined name known to all. Non-trivial:
the library was left for another thread in the middle of an operation at least once."""

ASSUMPTIONS = ['threads can be switched at every line of the library; switches inside a line are not explored',
               'settings are not changed while threads run; no two threads define the same name']

HERE = os.path.join(os.path.realpath(os.path.dirname(pq.__file__)), '')
SKIP = {'hash'}
PURE = sorted(set(c21.NAMES_PURE) - SKIP)
EXPENSIVE_ = sorted(n for n in PURE if 'rescale' in n or n in (
    '+', '-', '*', '/', '<', '==', 'str', 'repr', 'latex', '.simplified', 'dim *', 'dim simplified', 'pickle',
    'copy.deepcopy', 'Quantity(x, y)', 'CompoundUnit', '**2', 'D rescale', 'D simplified', '.dimensionless_magnitude',
    'np.sqrt', 'pq.hypot(x, y)', 'fstring', 'format', 'pq.sin', 'pq.trapz(x, y)'))


class Schedule:
    """Lets one thread run at a time"""

    def __init__(self, n, gaps):
        self.events = [threading.Event() for _ in range(n)]
        self.alive = list(range(n))
        self.gaps, self.k, self.left = gaps, 0, gaps[0]
        self.switches = self.stuck = 0

    def next_of(self, t):
        later = [i for i in self.alive if i > t] or [i for i in self.alive if i < t]
        return later[0] if later else None

    def tick(self, t):
        self.left -= 1
        if self.left > 0:
            return
        self.k = (self.k + 1) % len(self.gaps)
        self.left = self.gaps[self.k]
        n = self.next_of(t)
        if n is None:
            return
        self.switches += 1
        self.events[t].clear()
        self.events[n].set()
        if not self.events[t].wait(0.05):
            # the other one waits for something this one has
            self.stuck += 1

    def finish(self, t):
        n = self.next_of(t)
        self.alive.remove(t)
        if n is not None:
            self.events[n].set()

    def trace(self, t):
        def lines(frame, event, arg):
            if event == 'line':
                self.tick(t)
            return lines

        def calls(frame, event, arg):
            return lines if frame.f_code.co_filename.startswith(HERE) else None
        return calls


@st.composite
def programs(draw):
    n = draw(st.integers(1, 3))
    pool = [draw(c21.member(i)) for i in range(n)]
    own = [draw(c21.member(i).filter(lambda m: m['k'] not in ('user',)))
           for i in range(draw(st.integers(0, 2)))]
    total = n + len(own)
    at = st.integers(0, total - 1)
    pure = st.tuples(st.one_of(st.sampled_from(PURE), st.sampled_from(EXPENSIVE_)), at, at)
    define = st.tuples(st.just('define'), st.integers(2, 9), gen.unit_name)
    parse = st.tuples(st.just('parse'), gen.expr(), st.just(0))
    ops = [pure, pure, pure, define, parse]
    if own:
        ops.append(st.tuples(st.sampled_from(c21.NAMES_IN), st.integers(n, total - 1), at))
    return {
        'pool': pool, 'own': own,
        'prog': [draw(st.lists(st.one_of(ops).map(list), min_size=1, max_size=8))
                 for _ in range(draw(st.integers(2, 3)))],
        'gaps': draw(st.lists(st.one_of(st.integers(1, 6), st.integers(1, 60)), min_size=1, max_size=12)),
        'unicode': draw(st.booleans()), 'def': draw(st.sampled_from(['SI', 'SI', 'cgs', 'km'])),
        'pref': draw(st.lists(gen.unit_name, max_size=3)),
    }


def perform(op, pool, names):
    name, i, j = op
    if name == 'define':
        u = pq.UnitQuantity(names[0], i * unit(j), symbol=names[0] + 's', aliases=[names[0] + 'a'])
        q = Quantity([1.0, 2.0], names[0] + 's')
        if unit_of(q) != {names[0]: 1.0}:
            fail('a unit just defined is', unit_of(q))
        return mag(q.rescale(unit(j))), mag((q * 2).simplified), mag(Quantity(1.0, 1 / u).rescale(1 / unit(j)))
    if name == 'parse':
        q = Quantity([1.0], expr_text(i))
        return q, names_of(q.dimensionality), str(q), q.dimensionality.latex
    x, y = pool[i], pool[j]
    if name.startswith('in-place') and not isinstance(x, np.ndarray):
        return None
    if name == 'in-place **=y' and c21.sharing(x, y):
        return None
    return c21.ALL[name](x, y)


def perform_all(prog, pool, tag, out):
    n = 0
    for op in prog:
        if op[0] == 'define':
            n += 1
        try:
            with np.errstate(all='ignore'):
                out.append((True, perform(op, pool, ['%s_%d_u' % (tag, n)])))
        except Fail:
            raise
        except Exception as e:
            out.append((False, e))


def own_members(s, shared):
    pool = list(shared)
    for x in s['own']:
        x = dict(x)
        mine = pool[len(shared):]
        if x['k'] in ('view', 'like'):
            if not mine:
                x = {'k': 'number', 'a': {'t': 'f8', 's': [], 'd': [2.0]}}
            elif x['of'] >= len(mine):
                x['of'] = 0
        pool.append(c21.build(x, mine))
    return pool


def check_programs(s, ev):
    pq.markup.config.use_unicode = s['unicode']
    if s['def'] == 'km':
        pq.set_default_units(length='km', time=pq.hour)
    else:
        pq.set_default_units(s['def'])
    qmod.PREFERRED = [unit(n) for n in s['pref']]
    shared = []
    for x in s['pool']:
        shared.append(c21.build(x, shared))
    before = [c21.look(x) for x in shared]
    settings = defaults_now(), pq.markup.config.use_unicode, list(map(id, qmod.PREFERRED))
    tag = fresh('puth')
    # alone
    alone, alone_own = [], []
    for t, prog in enumerate(s['prog']):
        out, pool = [], own_members(s, shared)
        perform_all(prog, pool, '%s_%da' % (tag, t), out)
        alone.append(out)
        alone_own.append(pool[len(shared):])
    # together
    n = len(s['prog'])
    sched = Schedule(n, s['gaps'])
    together = [[] for _ in range(n)]
    pools = [own_members(s, shared) for _ in range(n)]
    trouble = []

    def run(t):
        sched.events[t].wait()
        sys.settrace(sched.trace(t))
        try:
            perform_all(s['prog'][t], pools[t], '%s_%db' % (tag, t), together[t])
        except BaseException as e:
            trouble.append(e)
        finally:
            sys.settrace(None)
            sched.finish(t)
    threads = [threading.Thread(target=run, args=(t,), daemon=True) for t in range(n)]
    for t in threads:
        t.start()
    sched.events[0].set()
    for t in threads:
        t.join(100)
        if t.is_alive():
            fail('the threads wait for each other')
    if trouble:
        raise trouble[0]
    for t in range(n):
        for op, a, b in zip(s['prog'][t], alone[t], together[t]):
            where = 'thread %d: %s' % (t, op)
            if a[0] != b[0]:
                fail(where, 'gave', repr(b[1]), 'instead of', repr(a[1]))
            if not a[0]:
                if type(a[1]) is not type(b[1]):
                    fail(where, 'raised', repr(b[1]), 'instead of', repr(a[1]))
                continue
            if op[0] not in ('define', 'parse') and 'fini' in op[0] or 'unit of' in op[0] or op[0] == 'unit constant' or op[0] == 'of a unit 2':
                continue            # these define names
            alike(a[1], b[1], where)
            if isinstance(a[1], dict) and a[1] != b[1]:
                fail(where, 'gave', b[1], 'instead of', a[1])
        for k, (x, y) in enumerate(zip(alone_own[t], pools[t][len(shared):])):
            if isinstance(x, np.ndarray):
                alike(x, y, 'thread %d: private operand %d' % (t, k))
    for k, x in enumerate(shared):
        if c21.look(x) != before[k]:
            fail('the shared operand', k, 'changed from', before[k], 'to', c21.look(x))
    if settings != (defaults_now(), pq.markup.config.use_unicode, list(map(id, qmod.PREFERRED))):
        fail('the settings changed')
    for t in range(n):
        k = 0
        for op, b in zip(s['prog'][t], together[t]):
            if op[0] == 'define':
                k += 1
                for suffix in ('', 's', 'a'):
                    l = '%s_%db_%d_u' % (tag, t, k)
                    q = Quantity(1.0, l + suffix)
                    if unit_of(q) != {l: 1.0}:
                        fail(l + suffix, 'denotes', unit_of(q))
                    want(mag(q.rescale(unit(op[2]))), op[1], 1e-12, what='a unit defined by a thread')
    ev.tag('%d threads' % n, 'switches %d' % min(sched.switches, 50) if sched.switches < 5 else 'many switches')
    if sched.stuck:
        ev.tag('waited for a lock')
    ev.nt(sched.switches)


SUBS = [Sub('programs', check_programs, programs, quick=1600)]
