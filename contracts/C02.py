"""C02: every parsing function of pp/yugen.py raises nothing but its own diagnostics
(postcondition on every exceptional exit, including the implicit exceptions of every
index, attribute, unpacking and conversion), every loop has a proved variant, and
recursion that does not advance in the text is well founded (the graph of calls at the
same position, recorded while the callers are verified, is acyclic)."""
from . import parser as P
from .C01 import HEAVY, TRUSTED, ASSUMPTIONS, unit

UNITS = [(n, unit(n)) for n in P.PARSERS]


def keep(label):
    return True


def facts(I):
    return sorted(x for x in getattr(I, 'samepos', ()) if x[0])


def final(units):
    edges = {}
    for u in units:
        for a, b in u.get('facts') or ():
            edges.setdefault(a, set()).add(b)
    done, path = set(), []
    cyc = []

    def visit(n):
        if n in path:
            cyc.append(path[path.index(n):] + [n])
            return
        if n in done or cyc:
            return
        path.append(n)
        for m in sorted(edges.get(n, ())):
            visit(m)
        path.pop()
        done.add(n)
    for n in sorted(edges):
        visit(n)
    yield 'recursion at the same position is well founded', not cyc, ' -> '.join(cyc[0]) if cyc else '%d functions' % len(edges)
    yield 'the recursion graph is not empty', len(edges) > 5, '%d edges' % sum(map(len, edges.values()))
