"""Numbers displayed by the text of a table cell."""
from vg import *


def parts(t):
    """Flatten a text term into displayed values; constants are dropped. None if not understood."""
    if t.op == 'const':
        return []
    if t.op in ('cat', 'tuple'):
        out = []
        for x in (t.args if t.op == 'cat' else t.args[0]):
            p = parts(x)
            if p is None:
                return None
            out += p
        return out
    if t.op in ('str', 'fmt'):
        x = t.args[0]
        if all(y.op == 'const' for q, y in tm.cases(x)):
            return []
        if t.op == 'fmt' and len(t.args) > 1 and isinstance(t.args[1], str) and not re.fullmatch(r'''f?['"]?[-+ ,<>=0-9]*(\.[1-9]f)?d?['"]?''', t.args[1]):
            return None
        return [x]
    if t.op == 'call' and t.args[0] == 'str' and len(t.args[1]) == 1:
        return [t.args[1][0]]
    return None


def numbers(t, g=BT):
    """[(guard, [values displayed])] for every case of the text."""
    out = []
    for q, x in tm.cases(t, g):
        q = band(g, q)
        if tm.unsat(q):
            continue
        p = parts(x)
        if p is None:
            return None
        out.append((q, p))
    return out


def unround(x):
    """(value, digits lost): digits None - nothing lost; 'int' - fraction lost."""
    lost = None
    while x.op == 'call' and x.args[0] in ('round', 'int', 'float') and x.args[1]:
        if x.args[0] == 'int' or x.args[0] == 'round' and (len(x.args[1]) < 2 or x.args[1][1] in (const(0), const(None))):
            lost = 'int'
        elif x.args[0] == 'round' and lost is None:
            lost = x.args[1][1].args[0] if x.args[1][1].op == 'const' else '?'
        x = x.args[1][0]
    return x, lost


def one(t, i, g=BT):
    """The i-th number displayed, if it is the same in every case, without rounding."""
    ns = numbers(t, g)
    if not ns or any(len(p) <= i for q, p in ns):
        return None
    xs = {unround(p[i])[0] for q, p in ns}
    return xs.pop() if len(xs) == 1 else None
