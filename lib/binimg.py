"""Partially known binary files for absint: windows of bytes whose content is unknown."""
import random
import struct

from absint import (AbsStr, Bits, Cannot, ExcInst, N, Op, PyExc, Bound, Func, frombits, mk, nadd, tobits)


def order(e, size):
    return 'little' if size == 1 else e


class Image:
    """known: offset -> byte; every other byte is unknown."""

    def __init__(self, name, known=None, size=None):
        self.name = name
        self.known = dict(known or {})
        self.bits = {}            # (offset, bit) -> 0 or 1
        self.size = size

    def put(self, off, data):
        for i, b in enumerate(data):
            self.known[off + i] = b

    def byte(self, off):
        if isinstance(off, int) and off in self.known:
            return self.known[off]
        a = ('f', self.name, off, 1, 'little', False)
        if isinstance(off, int) and any((off, i) in self.bits for i in range(8)):
            return frombits(Bits([self.bits.get((off, i), (a, i)) for i in range(8)]))
        return N(0, {a: 1})

    def leb(self, off, n):
        """n unknown bytes that form one LEB128 number."""
        for k in range(n):
            self.bits[(off + k, 7)] = 1 if k < n - 1 else 0

    def lebbits(self, off, n):
        out = []
        for k in range(n):
            b = tobits(self.byte(off + k))
            out += [b.bit(i) for i in range(7)]
        return out

    def seed(self, I):
        for (off, i), v in self.bits.items():
            I.memo[('bit', (('f', self.name, off, 1, 'little', False), i))] = bool(v)

    def field(self, off, size, endian, signed=False):
        if isinstance(off, int) and all(off + i in self.known for i in range(size)):
            return int.from_bytes(bytes(self.known[off + i] for i in range(size)), endian, signed=signed)
        return N(0, {('f', self.name, off, size, order(endian, size), bool(signed)): 1})

    def word(self, off, n):
        return Win(self, off, n)


class Win:
    """n bytes of an image from off on (both may be linear forms)."""

    def __init__(self, img, off, n):
        self.img, self.off, self.n = img, off, n

    abs_bytes = True

    def key(self):
        return ('win', self.img.name, canon(self.off), canon(self.n))

    def __repr__(self):
        return f'{self.img.name}[{self.off!r}:+{self.n!r}]'

    def concrete(self):
        if isinstance(self.off, int) and isinstance(self.n, int) and self.n <= 4096 and all(self.off + i in self.img.known for i in range(self.n)):
            return bytes(self.img.known[self.off + i] for i in range(self.n))
        return None

    def abs_len(self, I):
        return self.n

    def abs_truth(self, I):
        return not I.eq(self.n, 0)

    def inside(self, I, i, size=1):
        """Position i .. i+size of the window exists; may fork."""
        end = nadd(nadd(i, size), self.n, -1)
        return not (I.less(nadd(0, end, -1)) if not isinstance(end, int) else end > 0)

    def abs_index(self, I, k):
        if isinstance(k, int) and k < 0 or not isinstance(k, (int, N)):
            if isinstance(k, int):
                k = nadd(self.n, k)
            else:
                raise Cannot('index of bytes')
        if not self.inside(I, k):
            raise PyExc(ExcInst('IndexError', ()))
        return self.img.byte(nadd(self.off, k))

    def abs_slice(self, I, lo, hi, st):
        if st not in (None, 1):
            raise Cannot('slice step of bytes')
        lo = 0 if lo is None else lo
        hi = self.n if hi is None else hi
        for x in (lo, hi):
            if not isinstance(x, (int, N)):
                raise Cannot('slice of bytes')
        if isinstance(lo, int) and lo < 0:
            lo = nadd(self.n, lo)
        if isinstance(hi, int) and hi < 0:
            hi = nadd(self.n, hi)
        if isinstance(hi, int) and isinstance(self.n, int):
            hi = min(hi, self.n)
        n = nadd(hi, lo, -1)
        return Win(self.img, nadd(self.off, lo), n)

    def abs_iter(self, I):
        if not isinstance(self.n, int):
            raise Cannot('iteration over unknown bytes')
        return iter([self.img.byte(nadd(self.off, i)) for i in range(self.n)])

    def abs_eq(self, I, o):
        if isinstance(o, Win):
            return self.key() == o.key() or I.ask(('eqb', self.key(), o.key()))
        if isinstance(o, bytes):
            if not I.eq(self.n, len(o)):
                return False
            return all(I.eq(self.img.byte(nadd(self.off, i)), b) for i, b in enumerate(o))
        return False

    def nul(self, I, start):
        """Absolute position of the first NUL at or behind a window position."""
        a = nadd(self.off, start)
        if isinstance(a, int):
            p = a
            while p in self.img.known and self.img.known[p]:
                p += 1
            if p in self.img.known:
                return p
            if p != a:
                raise Cannot('partly known text')
        return N(0, {('nul', self.img.name, a): 1})

    def abs_method(self, I, n, args, kw):
        c = self.concrete()
        if c is not None and n != 'decode' and all(isinstance(a, (int, str, bytes, type(None))) for a in list(args) + list(kw.values())):
            try:
                return getattr(c, n)(*args, **kw)
            except (ValueError, IndexError, TypeError) as e:
                raise PyExc(ExcInst(type(e).__name__, ()))
            except AttributeError:
                raise Cannot(f'bytes.{n}')
        if n in ('index', 'find') and args and args[0] in (b'\0', 0):
            if len(args) > 2 or kw:
                raise Cannot('bounded search')
            p = self.nul(I, args[1] if len(args) > 1 else 0)
            return nadd(p, self.off, -1)
        if n in ('split', 'partition') and args and args[0] == b'\0':
            p = self.nul(I, 0)
            head = Win(self.img, self.off, nadd(p, self.off, -1))
            if n == 'split' and (len(args) < 2 or args[1] != 1) and kw.get('maxsplit') != 1:
                return [head, Unknown()]
            tail = Win(self.img, nadd(p, 1), nadd(nadd(self.off, self.n), nadd(p, 1), -1))
            return [head, tail] if n == 'split' else (head, b'\0', tail)
        if n == 'decode':
            c = self.concrete()
            if c is not None:
                try:
                    return c.decode(*[a for a in args if isinstance(a, str)])
                except ValueError:
                    raise PyExc(ExcInst('UnicodeDecodeError', ()))
            return AbsStr((Op(self.text(), ''),))
        if n in ('hex', 'tobytes'):
            return self if n == 'tobytes' else AbsStr((Op(('hex', self.key()), ''),))
        raise Cannot(f'bytes method {n}')

    def text(self):
        if canon(nadd(nadd(self.off, self.n), N(0, {('nul', self.img.name, self.off): 1}), -1)) == 0:
            return ('cstr', self.img.name, canon(self.off))
        return ('text', self.img.name, canon(self.off), canon(self.n))

    def abs_binop(self, I, op, a, b):
        if op == '+' and isinstance(a, Win) and isinstance(b, Win) and a.img is b.img:
            if nadd(nadd(a.off, a.n), b.off, -1) == 0:
                return Win(a.img, a.off, nadd(a.n, b.n))
        raise Cannot('bytes operator')


class Unknown:
    pass


class BinFile:
    """A file opened for reading; the n-th read may be cut short when the scenario says so."""

    def __init__(self, img, short=False):
        self.img, self.pos, self.short, self.reads = img, 0, short, 0
        self.cut = False

    def abs_method(self, I, n, args, kw):
        if n == 'seek':
            if len(args) > 1 and args[1] != 0:
                raise Cannot('relative seek')
            self.pos = args[0]
            return self.pos
        if n == 'tell':
            return self.pos
        if n == 'read':
            cnt = args[0] if args else None
            if cnt is None or cnt == -1:
                if self.img.size is None:
                    raise Cannot('size of the file')
                cnt = nadd(self.img.size, self.pos, -1)
            self.reads += 1
            if self.short and not self.cut and I.ask(('short', self.reads), f'read {self.reads} is cut short'):
                self.cut = True
                s = N(0, {('num', f'short{self.reads}'): 1})
                d = nadd(s, cnt, -1)
                if not I.less(d):
                    from absint import Prune
                    raise Prune()
                w = Win(self.img, self.pos, s)
            else:
                w = Win(self.img, self.pos, cnt)
            self.pos = nadd(self.pos, cnt)
            return w
        if n == 'close':
            return None
        raise Cannot(f'{n} of the file')

    def abs_truth(self, I):
        return True


STD = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 's': 1, 'e': 2, 'f': 4, 'd': 8}


def layout(fmt):
    """[(offset, size, code)], endian of a struct format."""
    endian = 'little'
    native = True
    f = fmt.replace(' ', '')
    if f and f[0] in '<>=!@':
        native = f[0] == '@'
        endian = 'big' if f[0] in '>!' else 'little'
        f = f[1:]
    out = []
    prefix = '@' if native else '='
    done = ''
    i = 0
    while i < len(f):
        j = i
        while f[j].isdigit():
            j += 1
        cnt = int(f[i:j]) if j > i else 1
        code = f[j]
        i = j + 1
        if code == 's':
            done += f'{cnt}s'
            out.append((struct.calcsize(prefix + done) - cnt, cnt, 's'))
            continue
        for _ in range(cnt):
            done += code
            end = struct.calcsize(prefix + done)
            size = struct.calcsize(prefix + code)
            if code != 'x':
                out.append((end - size, size, code))
    return out, endian, struct.calcsize(prefix + done)


def unpack(I, fmt, data, offset):
    if not isinstance(fmt, str):
        raise Cannot('struct format')
    items, endian, total = layout(fmt)
    if isinstance(data, bytes):
        try:
            return struct.unpack_from(fmt, data, offset)
        except struct.error:
            raise PyExc(ExcInst('struct.error', ()))
    if not isinstance(data, Win):
        raise Cannot('unpack')
    if not data.inside(I, offset, total):
        raise PyExc(ExcInst('struct.error', ()))
    out = []
    for o, size, code in items:
        a = nadd(nadd(data.off, offset), o)
        if code in 'sc':
            out.append(Win(data.img, a, size))
        elif code == '?':
            raise Cannot('struct ?')
        elif code in 'efd':
            raise Cannot('float field')
        else:
            out.append(data.img.field(a, size, endian, code.islower()))
    return tuple(out)


class StructVal:
    def __init__(self, fmt):
        self.fmt = fmt

    def abs_method(self, I, n, a, k):
        if n == 'unpack_from':
            return unpack(I, self.fmt, a[0], a[1] if len(a) > 1 else k.get('offset', 0))
        if n == 'unpack':
            return unpack(I, self.fmt, a[0], 0)
        raise Cannot(f'Struct.{n}')


def from_bytes(I, args, kw):
    data = args[0] if args else kw.get('bytes')
    e = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
    signed = kw.get('signed', False)
    if not isinstance(e, str):
        raise Cannot('byte order')
    if isinstance(data, bytes):
        return int.from_bytes(data, e, signed=bool(signed))
    if not isinstance(data, Win) or not isinstance(data.n, int):
        raise Cannot('from_bytes')
    if data.n == 0:
        return 0
    return data.img.field(data.off, data.n, e, bool(signed))


def calcsize(I, a, k):
    if not isinstance(a[0], str):
        raise Cannot('struct format')
    return struct.calcsize(a[0])


def iter_unpack(I, a, k):
    fmt, data = a
    _, _, total = layout(fmt)
    if isinstance(data, Win) and isinstance(data.n, int):
        if data.n % total:
            raise PyExc(ExcInst('struct.error', ()))
        return iter([unpack(I, fmt, data, i) for i in range(0, data.n, total)])
    raise Cannot('iter_unpack')


def hooks(file):
    return {
        'open': lambda I, a, k: file, 'io.open': lambda I, a, k: file,
        'struct.unpack_from': lambda I, a, k: unpack(I, a[0], a[1], a[2] if len(a) > 2 else k.get('offset', 0)),
        'struct.unpack': lambda I, a, k: unpack(I, a[0], a[1], 0),
        'struct.iter_unpack': iter_unpack,
        'struct.calcsize': calcsize,
        'struct.Struct': lambda I, a, k: StructVal(a[0]),
        'int.from_bytes': from_bytes,
        'memoryview': lambda I, a, k: a[0],
        'bytes': lambda I, a, k: a[0] if a else b'',
        'print': lambda I, a, k: None,
    }


# ------------------------------------------------------------------ comparison of decoded numbers
def low(bit):
    """Bit of a field -> bit of a single byte."""
    a, i = bit
    if a[0] != 'f':
        return bit
    _, img, off, size, endian, _ = a
    k = i // 8 if endian == 'little' else size - 1 - i // 8
    return (('f', img, nadd(off, k) if size > 1 else off, 1, 'little', False), i % 8)


def canon(x):
    """Key that is equal for numbers written differently but made of the same bits."""
    if isinstance(x, int):
        return x
    c, p = poly(None, x)
    return c if not p else (c, tuple(sorted(p.items(), key=repr)))


def key(a):
    """Canonical form of an atom."""
    if a[0] == 'f' and not isinstance(a[2], int):
        return a[:2] + (canon(a[2]),) + a[3:]
    if a[0] == 'nul':
        return ('nul', a[1], canon(a[2]))
    return a


def poly(I, x):
    """Number as constant and coefficients of single bits (and of atoms that are no bits)."""
    out = {}
    const = 0
    memo = I.memo if I is not None else {}

    def bit(z, k):
        nonlocal const
        if isinstance(z, int):
            const += z * k
            return
        z = low(z)
        v = memo.get(('bit', z))
        if v is not None:
            const += int(v) * k
        else:
            z = ('bit', (key(z[0]), z[1]))
            out[z] = out.get(z, 0) + k

    def bits(b, k):
        for i, z in enumerate(b.b):
            bit(z, k << i)
        if b.fill != 0:
            bit(b.fill, -k << len(b.b))

    if isinstance(x, Bits):
        bits(x, 1)
    elif isinstance(x, N):
        const += x.c
        for a, k in x.t:
            if a[0] == 'bits':
                bits(a[1], k)
            elif a[0] == 'f':
                w = a[3] * 8
                for i in range(w):
                    bit((a, i), (-k if a[5] and i == w - 1 else k) << i)
            else:
                a = key(a)
                out[a] = out.get(a, 0) + k
    else:
        const += int(x)
    return const, {a: k for a, k in out.items() if k}


OPS = {'or': lambda p, q: p | q, 'and': lambda p, q: p & q, 'xor': lambda p, q: p ^ q, 'not': lambda p, q: 1 - p}


def bitval(z, env):
    """Value of a bit (possibly a boolean function of bits) under an assignment."""
    if isinstance(z, int):
        return z
    if z[0][0] in OPS:
        return OPS[z[0][0]](bitval(z[0][1], env), bitval(z[0][2], env))
    return env(('bit', z))


def differ(I, x, y):
    """Looks for values of the unknown bytes, allowed on this path, that tell two numbers apart."""
    rnd = random.Random(1)
    if I.rows or I.neqs:
        return None

    for trial in range(64):
        vals = {}

        def env(a):
            b = a[1]
            if a in I.memo:
                return int(I.memo[a])
            if isinstance(b[0], tuple) and b[0][0] == 'f':
                a = ('bit', low(b))
                if a in I.memo:
                    return int(I.memo[a])
                a = ('bit', (key(a[1][0]), a[1][1]))
            if a not in vals:
                vals[a] = trial if trial < 2 else rnd.getrandbits(1)
            return vals[a]

        def num(x):
            c, p = poly(I, x)
            t = c
            for a, k in p.items():
                if a[0] != 'bit':
                    return None
                t += k * bitval(a[1], env)
            return t
        u, v = num(x), num(y)
        if u is None or v is None:
            return None
        if any(('bit', z) in I.memo and bitval(z, env) != int(I.memo[('bit', z)]) for k2 in list(I.memo) if k2[0] == 'bit' for z in [k2[1]] if z[0][0] in OPS):
            continue
        if u != v:
            return True
    return None


def opaque(p):
    return any(a[0] == 'bit' and a[1][0][0] in OPS for a in p)


def same(I, x, y):
    """True, False or None (undecided)."""
    if isinstance(x, Win) and isinstance(y, Win):
        if x.key() == y.key():
            return True
        if x.img is not y.img:
            return None
        r = [same(I, x.off, y.off), same(I, x.n, y.n)]
        return False if False in r else None if None in r else True
    if isinstance(x, Win) and isinstance(y, bytes) or isinstance(y, Win) and isinstance(x, bytes):
        w, b = (x, y) if isinstance(x, Win) else (y, x)
        return w.concrete() == b
    if isinstance(x, (str, AbsStr)) or isinstance(y, (str, AbsStr)):
        return x == y
    if x is None or y is None:
        return x is y
    if isinstance(x, (N, Bits, int)) and isinstance(y, (N, Bits, int)):
        if x == y:
            return True
        (c, p), (d, q) = poly(I, x), poly(I, y)
        if c == d and p == q:
            return True
        if opaque(p) or opaque(q):
            return False if differ(I, x, y) else None
        z = nadd(x, y, -1)
        if isinstance(z, N):
            f, k = I.lin(z)
            neg = {a: -v for a, v in f.items()}
            if not I.feasible([(f, k + 1)]) and not I.feasible([(neg, -k + 1)]):
                return True
            if any(a[0] in ('mul', '//', '%', '/', '<<', '**') for a in f):
                return None
        return False
    return None
