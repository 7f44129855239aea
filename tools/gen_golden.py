"""Snapshot of the predefined units and constants (reviewed by hand against the
published definitions, see DESIGN.md).  Run by hand only; no check runs it."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, '/repo')
import quantities as pq
from quantities.registry import unit_registry
ctx = unit_registry._UnitRegistry__registry._Registry__context
units = {}
def info(u):
    s = u.simplified
    return float(s.magnitude), {k.symbol: float(d) for k, d in s.dimensionality.items()}
byid = {}
for label, u in ctx.items():
    if isinstance(u, type): continue
    key = u.name
    e = units.setdefault(key, {'labels': [], 'attrs': []})
    e['labels'].append(label)
    if 'factor' not in e:
        f, d = info(u)
        e.update(factor=f, dims=d, cls=type(u).__name__, symbol=u.symbol, u_symbol=u.u_symbol)
    byid[id(u)] = key
for a in sorted(dir(pq)):
    v = getattr(pq, a)
    if isinstance(v, pq.UnitQuantity):
        key = v.name
        if key not in units:
            f, d = info(v)
            units[key] = {'labels': [], 'attrs': [], 'factor': f, 'dims': d,
              'cls': type(v).__name__, 'symbol': v.symbol, 'u_symbol': v.u_symbol}
        units[key]['attrs'].append(a)
for e in units.values(): e['labels'].sort()
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'pbt', 'golden_units.json'), 'w') as f:
    json.dump(dict(sorted(units.items())), f, indent=0, ensure_ascii=False, sort_keys=True)
print(len(units), sum(len(e['labels']) for e in units.values()), sum(len(e['attrs']) for e in units.values()))
