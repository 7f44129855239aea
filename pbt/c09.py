"""Reductions and array methods carry the right unit and value"""
from hypothesis import strategies as st

from . import gen
from .core import KnownFinding, Sub
from .lib import *

RULE = """A case is an array method of a quantity (dtype, shape, layout, nan, units over
the registry) with axis, dtype, ddof, offset and an output quantity of another unit,
called as method and as the numpy function of the same name. Oracle: the same method of
the plain magnitudes and the unit rule. Non-trivial: the array is not empty and has a
unit."""

KEEP = ['sum', 'mean', 'min', 'max', 'ptp', 'std', 'cumsum',
        'nansum', 'nanmean', 'nanmin', 'nanmax', 'nanstd']
ARG = ['argmin', 'argmax', 'nanargmin', 'nanargmax']
WITH_DTYPE = {'sum', 'mean', 'std', 'var', 'prod', 'cumsum', 'nansum', 'nanmean', 'nanstd'}
ALL = KEEP + ['var', 'prod', 'cumprod'] + ARG
COMPLEX = {'sum', 'mean', 'prod', 'cumsum', 'std', 'var', 'nansum', 'nanmean'}


@st.composite
def reduction(draw):
    f = draw(st.sampled_from(ALL))
    shape = draw(st.sampled_from([(), (1,), (3,), (4,), (2, 3), (3, 2), (2, 2, 2), (0,), (2, 0)]))
    u = draw(gen.expr())
    if f == 'cumprod' and draw(st.integers(0, 2)):
        u = []
        if draw(st.integers(0, 3)) == 0:
            n = draw(gen.unit_name)
            u = [[n, 1], [draw(st.sampled_from(CLASS.get(dims_key(dim(n)), [n]))), -1]]
    kinds = ['f8', 'f8', 'f4', 'i8', 'i4', 'u1'] + (['c16'] if f in COMPLEX else [])
    nd = len(shape)
    if draw(st.integers(0, 14)) == 0:
        q, nd = {'unit': draw(gen.unit_name)}, 0
    else:
        q = {'a': draw(gen.array(dtypes=kinds, shape=shape,
                                 specials=f.startswith('nan') or draw(st.integers(0, 3)) == 0)),
             'u': u}
    axes = st.none() if not nd else st.one_of(st.none(), st.integers(-nd, nd - 1),
                                              st.integers(-nd, nd - 1))
    s = {'f': f, 'q': q, 'axis': draw(axes)}
    if nd >= 2 and f in ('sum', 'mean', 'min', 'max', 'std', 'var') and draw(st.integers(0, 5)) == 0:
        s['axis'] = [0, nd - 1]
    if f in WITH_DTYPE and draw(st.integers(0, 3)) == 0:
        s['dtype'] = draw(st.sampled_from(['f4', 'f8', 'f8', 'f2'] + (
            ['i8', 'i2', 'c16'] if f in ('sum', 'prod', 'cumsum') else [])))
    if f in ('std', 'var', 'nanstd') and draw(st.booleans()):
        s['ddof'] = draw(st.integers(0, 2))
    k = draw(st.integers(0, 5))
    if k == 0:
        s['out'] = draw(gen.expr())
    # numpy's own nan-functions cannot copy a bare unit
    s['via'] = draw(st.sampled_from(['method', 'method', 'np', 'kw'] if 'a' in q else
                                    ['method', 'kw']))
    return s


def reference(f, a, kw):
    """the plain numpy result"""
    return getattr(np, f)(a, **kw)


def unit_rule(f, e, a, axis):
    if f == 'var':
        return power(e, 2)
    if f == 'prod':
        return power(e, a.size if axis is None else a.shape[axis])
    if f in ARG:
        return None
    return e


def check_reduction(s, ev):
    f, q, a, e = s['f'], qty(s['q']), q_arr(s['q']), q_expr(s['q'])
    kw = {}
    axis = s['axis']
    if isinstance(axis, list):
        axis = tuple(axis)
    if axis is not None or s['via'] == 'kw':
        kw['axis'] = axis
    if 'dtype' in s:
        if a.dtype.kind == 'c' or s['dtype'][0] == 'i' and a.dtype.kind == 'f':
            return
        kw['dtype'] = np.dtype(s['dtype'])
    if 'ddof' in s:
        kw['ddof'] = s['ddof']
    if f == 'cumprod' and merge(e):
        if si_dims(e):
            must_raise('cumprod of %s' % e, getattr(q, f), **kw)
            ev.tag(f, 'rejected')
            ev.nt()
            return
        # pure numbers in units of their own, as km/m: the right product or none
        k = si_factor(e)
        if a.dtype.kind not in 'iuf' or not 1e-6 < k < 1e6 or a.size > 8:
            return
        try:
            r = getattr(q, f)(**kw)
        except ValueError:
            ev.tag(f, 'rejected')
            ev.nt()
            return
        with np.errstate(all='ignore'):
            exp = np.cumprod(a.astype('f8') * k, axis=axis)
            got = mag(r) * (si_factor(list(unit_of(r).items())) if isinstance(r, Quantity) else 1)
        want(got, exp, 1e-5, what='cumprod of %s' % e)
        return
    try:
        with np.errstate(all='ignore'):
            exp = reference(f, a, kw)
    except (ValueError, TypeError):
        return              # numpy cannot either
    out = None
    if 'out' in s:
        blank = np.zeros(np.shape(exp), np.asarray(exp).dtype)
        with np.errstate(all='ignore'):
            if not equal(reference(f, a, dict(kw, out=blank.copy())), exp):
                return      # numpy 2.0 errs for negative strides with out
        out = blank if f in ARG else Quantity(blank, dimensionality(s['out']))
        kw['out'] = out
    before = snap(q)
    unit_ = unit_rule(f, e, a, axis)
    what = '%s(%s)' % (f, ', '.join(kw))
    with np.errstate(all='ignore'):
        if s['via'] == 'np':
            if f == 'nanstd':
                err = raises(np.nanstd, q, **kw)
                if isinstance(err, TypeError):
                    raise KnownFinding('np.nanstd')
            if f == 'ptp' and out is not None and \
                    isinstance(raises(np.ptp, q, **kw), ValueError):
                raise KnownFinding('np.ptp')
            r = getattr(np, f)(q, **kw)
        elif s['via'] == 'method' and 'axis' in kw:
            rest = dict(kw)
            r = getattr(q, f)(rest.pop('axis'), **rest)
        else:
            r = getattr(q, f)(**kw)
    t = tol(np.asarray(exp).dtype)
    if s['via'] == 'np' and f == 'ptp' and merge(e) and \
            isinstance(r, Quantity) and not r.dimensionality and equal(mag(r), exp, t):
        raise KnownFinding('np.ptp')
    if unit_ is None:
        no_units(r, what)
    else:
        want_unit(r, unit_, what)
    want(mag(r), exp, t, what=what)
    if mag(r).dtype != np.asarray(exp).dtype:
        fail(what, 'dtype', mag(r).dtype, 'instead of', np.asarray(exp).dtype)
    if out is not None:
        if r is not out and f not in ARG:
            fail(what, 'did not return the output quantity')
        want(np.asarray(out), exp, t, what=(what, 'output'))
    if snap(q) != before:
        fail(what, 'changed the quantity')
    ev.tag(f, s['via'], 'out' if out is not None else '', 'axis' if axis is not None else '',
           a.dtype.str[1:])
    ev.nt(a.size and merge(e))


@st.composite
def clips(draw):
    q = draw(gen.quantity(dtypes=['f8', 'f8', 'f4', 'i8'],
                          shapes=[(), (3,), (4,), (2, 3)], specials=False))
    if draw(st.integers(0, 3)) == 0 and q['a']['t'][0] == 'f' and q['a']['d']:
        d = list(q['a']['d'])
        d[draw(st.integers(0, len(d) - 1))] = draw(st.sampled_from(['inf', '-inf', 'nan']))
        q['a']['d'] = d
    s = {'q': q, 'via': draw(st.sampled_from(['method', 'np'])),
         'out': draw(gen.expr()) if draw(st.integers(0, 4)) == 0 else None}
    mode = draw(st.sampled_from(['both', 'both', 'both', 'min', 'max', 'bad', 'plain']))
    s['mode'] = mode
    for k in ('lo', 'hi'):
        if mode == 'min' and k == 'hi' or mode == 'max' and k == 'lo':
            continue
        a = draw(gen.array(shape=draw(st.sampled_from([(), (), q['a']['s'][-1:]])),
                           dtypes=['f8', 'f8', 'f8', 'i8'], specials=False))
        if a['t'] == 'f8' and a['d'] and draw(st.integers(0, 6)) == 0:
            a = dict(a, d=[draw(st.sampled_from(['nan', 'nan', 'inf', '-inf']))] + list(a['d'][1:]))
        if mode == 'plain':
            s[k] = {'p': {'a': a, 'k': 'array'}}
        else:
            s[k] = {'a': a, 'u': draw(gen.compatible_expr(q['u']))}
    if mode == 'bad':
        s[draw(st.sampled_from(['lo', 'hi']))]['u'] = draw(gen.incompatible_expr(q['u']))
    return s


def check_clips(s, ev):
    q, a, e = qty(s['q']), arr(s['q']['a']), s['q']['u']
    args, mags, bad = [], [], False
    for k in ('lo', 'hi'):
        if k not in s:
            args.append(None)
            mags.append(None)
        elif 'p' in s[k]:
            args.append(plain(s[k]['p']))
            mags.append(arr(s[k]['p']['a']))
            bad = bad or merge(e)
        else:
            args.append(qty(s[k]))
            if not compatible(s[k]['u'], e):
                bad = True
                continue
            r = ratio(s[k]['u'], e)
            if not 1e-15 < r < 1e15 or a.dtype == np.dtype('f4') and (
                    not 1e-15 < si_factor(e) < 1e15):
                return
            mags.append(arr(s[k]['a']) * r)
    f = q.clip if s['via'] == 'method' else lambda *x, **kw: np.clip(q, *x, **kw)
    if not bad and not merge(e) and s['mode'] == 'plain':
        # plain bounds of a pure number: either form will do
        args = [Quantity(np.asarray(x)) for x in args]
    if bad:
        if 'p' in s['lo'] and not si_dims(e):
            return
        must_raise('clip', f, *args)
        ev.tag('rejected')
        ev.nt()
        return
    exp = np.clip(a, *mags)
    if s['out'] is not None:
        out = Quantity(np.zeros(exp.shape, exp.dtype), dimensionality(s['out']))
        r = f(*args, out=out)
        if r is not out:
            fail('did not return the output quantity')
    else:
        r = f(*args)
    want_unit(r, e, 'clip')
    want(mag(r), exp, max(tol(a.dtype), 1e-9), what='clip')
    ev.tag(s['mode'], s['via'])
    ev.nt(a.size and merge(e))


@st.composite
def misc(draw, of=('trace', 'trace', 'round', 'round', 'builtin', 'argsort', 'nonzero')):
    f = draw(st.sampled_from(of))
    s = {'f': f, 'via': draw(st.sampled_from(['method', 'np'])),
         'out': draw(gen.expr()) if draw(st.integers(0, 3)) == 0 else None}
    shapes = {'trace': [(2, 2), (2, 3), (3, 3), (2, 3, 2)], 'searchsorted': [(3,), (5,), (0,)],
              'builtin': [()]}.get(f, [(3,), (2, 3), (1,), (4,)])
    kinds = ['i8', 'i8', 'i4', 'f8', 'f4'] if f == 'searchsorted' else ['f8', 'f8', 'f4', 'i8'] + (['c16'] if f in ('trace', 'round') else [])
    s['q'] = {'a': draw(gen.array(shape=draw(st.sampled_from(shapes)), dtypes=kinds,
                                  specials=f in ('argsort', 'nonzero'))),
              'u': draw(gen.expr())}
    if f == 'trace':
        s['arg'] = [draw(st.integers(-1, 1)), *draw(st.sampled_from(
            [(0, 1), (1, 0)] + ([(0, 2), (2, 1)] if len(s['q']['a']['s']) == 3 else [])))]
        s['dtype'] = draw(st.sampled_from([None, None, None, 'f4', 'f8', 'c16']))
    elif f in ('round', 'builtin'):
        s['arg'] = draw(st.integers(-2, 3))
    elif f == 'argsort':
        s['arg'] = draw(st.sampled_from([-1, 0]))
    elif f == 'searchsorted':
        s['q']['a'] = {'t': s['q']['a']['t'], 's': s['q']['a']['s'],
                       'd': sorted(s['q']['a']['d'])}
        s['side'] = draw(st.sampled_from(['left', 'right']))
        e = s['q']['u']
        s['v'] = {'a': draw(gen.array(shape=draw(st.sampled_from([(), (2,), (3,)])),
                                      dtypes=['f8', 'f8', s['q']['a']['t']], specials=False)),
                  'u': draw(st.one_of(st.just(e), st.just(e), gen.compatible_expr(e),
                                      gen.incompatible_expr(e)))}
        if s['q']['a']['d'] and draw(st.integers(0, 3)):
            s['v']['a']['d'][0] = s['q']['a']['d'][0]
            if s['v']['a']['t'] == 'f8':
                # just beside a number which is there
                s['v']['a']['d'][0] += draw(st.sampled_from([0, 0.5, -0.5, 0.999, -0.001]))
    return s


def check_misc(s, ev):
    f, q, a, e = s['f'], qty(s['q']), arr(s['q']['a']), s['q']['u']
    ev.tag(f, s['via'])
    ev.nt(a.size and merge(e))
    on = (lambda n, *x, **kw: getattr(q, n)(*x, **kw)) if s['via'] == 'method' else \
        (lambda n, *x, **kw: getattr(np, n)(q, *x, **kw))
    if f in ('trace', 'round'):
        args = s['arg'] if f == 'trace' else [s['arg']]
        exp = np.asarray(getattr(np, f)(a, *args))
        kw = {}
        if s.get('dtype') and not (a.dtype.kind == 'c' and s['dtype'][0] == 'f'):
            kw['dtype'] = np.dtype(s['dtype'])
            exp = np.asarray(np.trace(a, *args, **kw))
        if s['out'] is not None:
            if raises(getattr(np, f), a, *args, out=np.zeros(exp.shape, exp.dtype)):
                return      # numpy cannot either
            kw['out'] = Quantity(np.zeros(exp.shape, exp.dtype), dimensionality(s['out']))
            ev.tag('out')
        r = on(f, *args, **kw)
        if 'out' in kw and r is not kw['out']:
            fail('did not return the output quantity')
        want_unit(r, e, f)
        want(mag(r), exp, tol(exp.dtype), what=f)
        if mag(r).dtype != exp.dtype:
            fail(f, 'dtype', r.dtype, 'instead of', exp.dtype)
    elif f == 'builtin':
        r = round(q, s['arg'])
        want_unit(r, e, f)
        want(mag(r), np.round(a, s['arg']), tol(a.dtype), what='round()')
    elif f == 'argsort':
        r = on(f, s['arg'], kind='stable') if s['via'] == 'np' else q.argsort(s['arg'], 'stable')
        no_units(r, f)
        want(mag(r), np.argsort(a, s['arg'], kind='stable'), what=f)
    elif f == 'nonzero':
        r = on(f)
        exp = np.nonzero(a)
        if len(r) != len(exp):
            fail('nonzero')
        for x, y in zip(r, exp):
            no_units(x, f)
            want(mag(x), y, what=f)
    else:
        v, b, u = qty(s['v']), arr(s['v']['a']), s['v']['u']
        if merge(u) == merge(e):
            r = on(f, v, s['side'])
            no_units(r, f)
            want(mag(r), np.searchsorted(a, b, s['side']), what=f)
        elif not compatible(u, e):
            must_raise('searchsorted', q.searchsorted, v, s['side'])
            ev.tag('rejected')
        else:
            k = ratio(u, e)
            x = b * k
            with np.errstate(all='ignore'):
                near = np.abs(np.subtract.outer(a, x)) <= 1e-9 * np.abs(x)
            if np.any(near):
                return
            try:
                r = q.searchsorted(v, s['side'])
            except Exception:
                ev.tag('converted: rejected')
                return
            want(mag(r), np.searchsorted(a, x, s['side']), what=f)


SUBS = [
    Sub('reduction', check_reduction, reduction, quick=4500),
    Sub('clip', check_clips, clips, quick=900),
    Sub('misc', check_misc, misc, quick=1200),
    Sub('search', check_misc, lambda: misc(['searchsorted']), quick=800),
]
