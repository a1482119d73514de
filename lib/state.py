"""State that survives a call: module variables, class attributes and default arguments a function writes to.

A table filled on demand (memoisation) must be looked up with a key that tells the arguments apart its values are made of;
otherwise the result for one project depends on which other project was analysed before."""
import ast

from report import PROVED, REFUTED, UNKNOWN

MUT = {'append', 'extend', 'add', 'update', 'setdefault', 'insert', 'pop', 'popitem', 'clear', 'remove', 'discard', '__setitem__'}
SAME = {'str', 'tuple', 'abspath', 'realpath', 'fspath', 'Path', 'resolve', 'absolute', 'repr', 'PurePath', 'frozenset', 'bytes', 'strip', 'expanduser'}


def root(n):
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def functions(m):
    """(qualified name, node, class) of all functions of a module, nested ones belonging to the outermost."""
    for n in m.tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n.name, n, None
        elif isinstance(n, ast.ClassDef):
            for x in n.body:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield f'{n.name}.{x.name}', x, n


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]


def locals_(f):
    """name -> expressions assigned to it"""
    out = {}

    def put(t, v):
        if isinstance(t, ast.Name):
            out.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                put(x, v)
    for n in ast.walk(f):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                put(t, n.value)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and n.value is not None:
            put(n.target, n.value)
        elif isinstance(n, ast.NamedExpr):
            put(n.target, n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            put(n.target, n.iter)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            put(n.optional_vars, n.context_expr)
    return out


def parts(key, ls):
    """The expressions a key consists of."""
    out, todo = set(), [key]
    while todo:
        k = todo.pop()
        d = ast.dump(k)
        if d in out:
            continue
        out.add(d)
        if isinstance(k, (ast.Tuple, ast.List)):
            todo += k.elts
        elif isinstance(k, ast.Name) and len(ls.get(k.id, ())) == 1:
            todo.append(ls[k.id][0])
    return out


def nodes(e, known):
    todo = [e]
    while todo:
        n = todo.pop()
        if ast.dump(n) in known:
            continue
        yield n
        todo += ast.iter_child_nodes(n)


def depends(e, ps, ls, seen=None, known=()):
    """Parameters an expression is made of, besides the known expressions."""
    seen = set() if seen is None else seen
    r = set()
    for n in nodes(e, known):
        if isinstance(n, ast.Name):
            if n.id in ls and n.id not in seen:
                seen.add(n.id)
                for v in ls[n.id]:
                    r |= depends(v, ps, ls, seen, known)
            if n.id in ps:
                r.add(n.id)
    return r


def whole(e, ps, ls, depth=0):
    """Parameters a key tells apart completely."""
    if depth > 8:
        return set()
    if isinstance(e, ast.Name):
        if e.id in ps and e.id not in ls:
            return {e.id}
        v = ls.get(e.id, [])
        return whole(v[0], ps, ls, depth + 1) if len(v) == 1 and e.id not in ps else set()
    if isinstance(e, (ast.Tuple, ast.List)):
        return set().union(*[whole(x, ps, ls, depth + 1) for x in e.elts]) if e.elts else set()
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', '')
        if n in SAME:
            r = set()
            for x in list(e.args) + ([e.func.value] if isinstance(e.func, ast.Attribute) and root(e.func.value) in set(ps) | set(ls) else []):
                r |= whole(x, ps, ls, depth + 1)
            return r
    if isinstance(e, ast.JoinedStr):
        return set().union(set(), *[whole(x.value, ps, ls, depth + 1) for x in e.values if isinstance(x, ast.FormattedValue)])
    if isinstance(e, ast.BoolOp) or isinstance(e, ast.IfExp):
        return set()
    return set()


def reads(e, g):
    return any(isinstance(n, ast.Name) and n.id == g for n in ast.walk(e))


def memo(f, g):
    """Is the name g consulted before it is filled?"""
    for n in ast.walk(f):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and reads(n.test, g):
            return True
        if isinstance(n, ast.Try) and any(reads(x, g) for x in n.body) and n.handlers:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('setdefault', 'get') and root(n.func) == g:
            return True
    return False


def check(c, P, oid='state', rule='nothing an earlier analysis left behind changes a later one'):
    def go():
        found, verdicts = 0, []
        for m in P.modules.values():
            tops = {t.id for s in m.tree.body if isinstance(s, (ast.Assign, ast.AnnAssign))
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)}
            for q, f, cls in functions(m):
                found += 1
                ps, ls = params(f), locals_(f)
                glob = {x for n in ast.walk(f) if isinstance(n, ast.Global) for x in n.names}
                a = f.args
                pos = a.posonlyargs + a.args
                dflt = {x.arg for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]
                        if isinstance(d, (ast.Dict, ast.List, ast.Set)) or isinstance(d, ast.Call) and getattr(d.func, 'id', '') in ('dict', 'list', 'set')}
                keep = {x for x in tops if x not in ps and (x not in ls or x in glob)} | dflt
                ps = [x for x in ps if x not in dflt and x not in ('self', 'cls')]
                for n in ast.walk(f):
                    g = key = val = None
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Subscript) and root(t) in keep and isinstance(t.value, ast.Name):
                                g, key, val = root(t), t.slice, n.value
                            elif isinstance(t, ast.Name) and t.id in glob:
                                g, key, val = t.id, ast.Tuple(elts=[], ctx=ast.Load()), n.value
                            elif isinstance(t, (ast.Subscript, ast.Attribute)) and root(t) in keep:
                                verdicts.append((UNKNOWN, f'{m.name}.{q} writes to {root(t)}', None))
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name) and n.func.value.id in keep:
                        if n.func.attr == 'setdefault' and len(n.args) == 2:
                            g, key, val = n.func.value.id, n.args[0], n.args[1]
                        else:
                            verdicts.append((UNKNOWN, f'{m.name}.{q} changes {n.func.value.id}', None))
                    if g is None:
                        continue
                    need, have, part = depends(val, ps, ls, None, parts(key, ls)), whole(key, ps, ls), depends(key, ps, ls)
                    where = f'{m.path}:{n.lineno} {q}'
                    if memo(f, g) and need and not have & need:
                        verdicts.append((REFUTED, f'{g} is filled with a value made of {", ".join(sorted(need))} and found again by {ast.unparse(key) or "no key"}'
                                         + (f', which does not tell apart all {", ".join(sorted(part & need))}' if part & need else ''), where))
                    elif not need or need <= have:
                        continue
                    else:
                        verdicts.append((UNKNOWN, f'{m.name}.{q} writes to {g}', where))
        c.count('functions searched for kept state', found)
        for want in (REFUTED, UNKNOWN):
            for v, t, w in verdicts:
                if v == want:
                    return (v, t, w) if w else (v, t)
        return PROVED, f'{found} functions'
    c.ob(oid, rule, go)
