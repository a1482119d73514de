"""The command line front end: options, and the value graph of main()."""
import ast

from vg import *
import terms as tm

OPS = ('get', 'get_elf', 'remove_unused', 'ignore_flash_size', 'diff', 'unify')
FORMATS = ('table', 'json', 'raw', 'csv', 'tree', 'dot')
A = T('param', 'args')


class Opt:
    pass


def lit(n, default=None):
    try:
        return ast.literal_eval(n)
    except Exception:
        return default


def options(P):
    """dest -> Opt for every click option/argument decorating main.main."""
    node = P.func('main', 'main')
    out = {}
    for d in node.decorator_list:
        if not isinstance(d, ast.Call):
            continue
        name = ast.unparse(d.func).split('.')[-1]
        if name not in ('option', 'argument'):
            continue
        o = Opt()
        o.node = d
        o.kind = name
        o.names = [lit(a) for a in d.args]
        if any(not isinstance(x, str) for x in o.names):
            o.names = [x for x in o.names if isinstance(x, str)]
        o.kw = {k.arg: k.value for k in d.keywords}
        plain = [x for x in o.names if not x.startswith('-')]
        decl = [x for x in o.names if x.startswith('-')]
        if plain:
            o.dest = plain[-1]
        elif decl:
            longs = [x for x in decl if x.startswith('--')] or decl
            # click: the longest-prefixed (first long) name gives the parameter name
            o.dest = longs[0].lstrip('-').split('/')[0].replace('-', '_').lower()
        else:
            continue
        o.exposed = lit(o.kw.get('expose_value'), True) is not False
        o.required = name == 'argument'
        o.flag = lit(o.kw.get('is_flag'), False) is True
        o.multiple = lit(o.kw.get('multiple'), False) is True
        o.choices = None
        t = o.kw.get('type')
        if isinstance(t, ast.Call) and ast.unparse(t.func).endswith('Choice') and t.args:
            o.choices = lit(t.args[0])
        o.default = o.kw.get('default')
        out[o.dest] = o
    if not out:
        raise AnchorMissing('main.main declares no click options any more')
    return out


def opt(name):
    return T('idx', A, const(name))


def on(name):
    return batom(T('truthy', opt(name)))


def facts_for(opts, exc=False, pin=None):
    names = {n for n, o in opts.items() if o.exposed}

    def f(a):
        if a.op == 'exc' and exc is not None:
            return exc
        if a.op == 'in' and a.args[1] is A and a.args[0].op == 'const':
            return a.args[0].args[0] in names
        if a.op == 'isnone' and a.args[0].op == 'idx' and a.args[0].args[0] is A:
            n = a.args[0].args[1].args[0] if a.args[0].args[1].op == 'const' else None
            o = opts.get(n)
            if o is not None and (o.required or o.choices or (o.flag and o.default is None) or
                                  isinstance(lit(o.default) if o.default is not None else None, str)):
                return False
        if a.op == 'truthy' and a.args[0] is opt('input_file'):
            return True
        if pin is not None:
            return pin(a)
        return None
    return f


def analyse(P, stop=None, exc=False, pin=None, inline=()):
    opts = options(P)
    node = P.func('main', 'main')
    m = P.func_module(node)
    if stop is None:
        stop = {f'memorymap.{x}' for x in OPS} | {f'format_{x}.show' for x in FORMATS}
    f = facts_for(opts, exc, pin)
    E = Engine(P, stop=stop, facts=f, inline_classes=inline)
    E.run(node, m, {'**': A})
    E.cli_facts = f
    return E, opts


def calls(E, *names):
    """[(event, name, args terms, kwargs)] of call events in program order."""
    out = []
    for e, chain in E.events(('call',)):
        n = e.key.args[0]
        if n in names:
            out.append((e, n, list(e.val.args[0]), dict(e.val.args[1])))
    return out


def argof(P, q, args, kw, i, name=None):
    """Argument i of a call of project function q, whether passed by position or name."""
    mod, fn = q.split('.', 1)
    node = P.func(mod, fn, public=False)
    if i < len(args):
        return args[i]
    if node is not None:
        ps = params(node)
        if 'self' in ps[:1]:
            ps = ps[1:]
        if i < len(ps) and ps[i] in kw:
            return kw[ps[i]]
        ds = node.args.defaults
        pos = [x.arg for x in node.args.posonlyargs + node.args.args]
        j = i - (len(pos) - len(ds))
        if 0 <= j < len(ds):
            v = lit(ds[j], Ellipsis)
            if v is not Ellipsis:
                return const(v)
    if name and name in kw:
        return kw[name]
    return None
