H = "import numpy as np, copy, pickle\nimport quantities as pq\n"
BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks))
R = """
def raises(f):
    try:
        r = f()
    except Exception:
        return
    raise AssertionError(r)
"""
