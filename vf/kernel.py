"""Term kernel: integer polynomials over atoms (with exact floor division), and
polynomials over the prime field F_p.  All simplifications are exact identities.

Integer atoms
  ('v', name)            free variable
  ('f', key, m)          floor(arg / m), arg an integer polynomial
  ('u', name, args)      uninterpreted / defined function of canonical arguments
Every atom has an unconditional interval (lo, hi), possibly (None, None).
"""
from math import gcd

P25519 = 2**255 - 19
L25519 = 2**252 + 27742317777372353535851937790883648493
D25519 = (-121665 * pow(121666, P25519 - 2, P25519)) % P25519
SQRTM1 = pow(2, (P25519 - 1) // 4, P25519)

NEG = float('-inf')
POS = float('inf')


class Atom:
    __slots__ = ('id', 'kind', 'data', 'lo', 'hi', 'arg', 'm', 'nz', 'name', 'odd')

    def __init__(self, id, kind, data, lo, hi):
        self.id = id
        self.kind = kind
        self.data = data
        self.lo = lo
        self.hi = hi
        self.arg = None
        self.m = None
        self.nz = False
        self.name = None
        self.odd = None      # atom k: this integer is 0 or 2*k+1


class Kernel:
    def __init__(self):
        self.atoms = []
        self.index = {}
        self.pivot = {}      # limb-0 atom id -> FP  (field meaning of that limb)
        self.nfresh = 0
        self.fpairs = {}
        self.curve = {}      # x atom id -> y atom id, y atom id -> x atom id
        self.curvepts = []   # list of (x,y)

    # -- atoms
    def _new(self, kind, data, lo, hi):
        a = Atom(len(self.atoms), kind, data, lo, hi)
        self.atoms.append(a)
        self.index[data] = a.id
        return a

    def var(self, name, lo=None, hi=None):
        key = ('v', name, lo, hi)
        if key in self.index:
            return self.atoms[self.index[key]]
        a = self._new('v', key, lo, hi)
        a.name = name
        return a

    def fresh(self, base, lo=None, hi=None):
        self.nfresh += 1
        return self.var('%s#%d' % (base, self.nfresh), lo, hi)

    def func(self, name, args, lo=None, hi=None):
        """uninterpreted function atom; args is a hashable canonical key"""
        key = ('u', name, args)
        if key in self.index:
            return self.atoms[self.index[key]]
        a = self._new('u', key, lo, hi)
        a.name = name
        return a


K = Kernel()


def reset():
    global K
    K.__init__()


# ---------------------------------------------------------------- integer polys
class Poly:
    __slots__ = ('d', '_k')

    def __init__(self, d):
        self.d = d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __repr__(self):
        return show(self)


ZERO = Poly({})


def pc(c):
    return Poly({(): c}) if c else ZERO


def pa(atom):
    return Poly({(atom.id,): 1})


def padd(a, b):
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for k, v in b.d.items():
        n = d.get(k, 0) + v
        if n:
            d[k] = n
        else:
            del d[k]
    return Poly(d)


def psub(a, b):
    d = dict(a.d)
    for k, v in b.d.items():
        n = d.get(k, 0) - v
        if n:
            d[k] = n
        else:
            del d[k]
    return Poly(d)


def pscale(a, c):
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return Poly({k: v * c for k, v in a.d.items()})


def pmul(a, b):
    if len(a.d) == 1 and () in a.d:
        return pscale(b, a.d[()])
    if len(b.d) == 1 and () in b.d:
        return pscale(a, b.d[()])
    d = {}
    for k1, v1 in a.d.items():
        for k2, v2 in b.d.items():
            k = tuple(sorted(k1 + k2)) if k1 and k2 else (k1 or k2)
            n = d.get(k, 0) + v1 * v2
            if n:
                d[k] = n
            else:
                d.pop(k, None)
    return Poly(d)


def ppow(a, e):
    r = pc(1)
    while e:
        if e & 1:
            r = pmul(r, a)
        a = pmul(a, a)
        e >>= 1
    return r


def imul(a, b):
    vs = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                vs.append(0)
            else:
                vs.append(x * y)
    return (min(vs), max(vs))


def _inf(x, s):
    return s if x is None else x


def ival_mono(mono, bnd=None):
    """interval of a monomial"""
    if not mono:
        return (1, 1)
    if len(mono) == 1:
        a = K.atoms[mono[0]]
        if bnd and mono[0] in bnd:
            return bnd[mono[0]]
        return (_inf(a.lo, NEG), _inf(a.hi, POS))
    r = (1, 1)
    i = 0
    while i < len(mono):
        j = i
        while j < len(mono) and mono[j] == mono[i]:
            j += 1
        one = ival_mono((mono[i],), bnd)
        e = j - i
        p = one
        for _ in range(e - 1):
            p = imul(p, one)
        if e % 2 == 0 and p[0] < 0:
            p = (0, p[1])
        r = imul(r, p)
        i = j
    return r


def ival_naive(p, bnd=None):
    lo = hi = 0
    for k, c in p.d.items():
        a, b = ival_mono(k, bnd)
        if c > 0:
            lo += c * a if a != 0 else 0
            hi += c * b if b != 0 else 0
        else:
            lo += c * b if b != 0 else 0
            hi += c * a if a != 0 else 0
    return lo, hi


def content(p, withconst=False):
    g = 0
    for k, c in p.d.items():
        if k or withconst:
            g = gcd(g, c)
            if g == 1:
                return 1
    return g


def prim(p):
    """(primitive poly, factor, const): p = factor*prim + const with prim having no
    constant term and a positive leading coefficient"""
    c0 = p.d.get((), 0)
    rest = {k: v for k, v in p.d.items() if k}
    if not rest:
        return None
    g = 0
    for v in rest.values():
        g = gcd(g, v)
        if g == 1:
            break
    lead = max(rest)
    if rest[lead] < 0:
        g = -g
    return Poly({k: v // g for k, v in rest.items()}), g, c0


def ceil_div(a, b):
    return -((-a) // b)


ISZ = {}            # atom of "g is zero" -> monomial of can(g)


class Bounds:
    """Path dependent knowledge: bounds of atoms and recorded intervals of polynomials."""
    __slots__ = ('atom', 'rec', 'dis', 'pair')

    def __init__(self, atom=None, rec=None, dis=None, pair=None):
        self.atom = atom if atom is not None else {}
        self.rec = rec if rec is not None else {}
        self.dis = dis if dis is not None else {}   # poly -> (k, H): poly - 2^k*H in [0,2^k)
        self.pair = pair if pair is not None else {}   # floor atom -> (q, lo, hi), q = +-atom + ...

    def copy(self):
        return Bounds(dict(self.atom), dict(self.rec), dict(self.dis), dict(self.pair))

    def record(self, p, lo, hi):
        if lo == NEG and hi == POS:
            return
        r = prim(p)
        if r is None:
            return
        q, g, c = r
        l, h = lo - c, hi - c
        if g < 0:
            l, h = -h, -l
            g = -g
        l = ceil_div(l, g) if l != NEG else l
        h = h // g if h != POS else h
        if len(q.d) == 1:
            (mono, _), = q.d.items()
            if len(mono) == 1:
                a0, b0 = ival_mono(mono, self.atom)
                if l > a0 or h < b0:
                    self.atom[mono[0]] = (max(l, a0), min(h, b0))
                return
        k = q.key()
        o = self.rec.get(k)
        if o is None:
            self.rec[k] = (l, h)
        else:
            self.rec[k] = (max(o[0], l), min(o[1], h))

    def note(self, q, lo, hi):
        """remember the narrow range of a sum of floors"""
        if not 2 <= len(q.d) <= 6 or lo == NEG or hi == POS or hi - lo > 16:
            return
        for k, c in q.d.items():
            if len(k) == 1 and abs(c) == 1 and K.atoms[k[0]].kind == 'f':
                o = self.pair.get(k[0])
                if o is None or o[2] - o[1] > hi - lo:
                    self.pair[k[0]] = (q, lo, hi)

    def lookup(self, p):
        r = prim(p)
        if r is None:
            c = p.d.get((), 0)
            return (c, c)
        q, g, c = r
        o = self.rec.get(q.key())
        if o is None:
            return None
        l, h = o
        l, h = l * g, h * g
        if g < 0:
            l, h = h, l
        return (l + c, h + c)

    def ival(self, p, depth=2):
        """best interval for a polynomial"""
        if depth and self.atom and len(p.d) <= 3:
            for k in p.d:
                if len(k) == 1 and k[0] not in self.atom and K.atoms[k[0]].kind == 'f':
                    a = K.atoms[k[0]]
                    l, h = self.ival(a.arg, depth - 1)
                    l = NEG if l == NEG else l // a.m
                    h = POS if h == POS else h // a.m
                    l0, h0 = ival_mono(k)
                    if l > l0 or h < h0:
                        self.atom[k[0]] = (max(l, l0), min(h, h0))
        lo, hi = ival_naive(p, self.atom)
        o = self.lookup(p)
        if o:
            lo, hi = max(lo, o[0]), min(hi, o[1])
        if depth and len(p.d) > 1 and lo != hi:
            # x - m*floor(R/m) pattern
            for k, c in p.d.items():
                if len(k) != 1:
                    continue
                a = K.atoms[k[0]]
                if a.kind != 'f':
                    # can(g) + p*isz(g) lies in [1, p]
                    if k[0] in ISZ:
                        u = p.d.get(ISZ[k[0]])
                        if u is not None and c == u * P25519:
                            rest = psub(p, Poly({ISZ[k[0]]: u, k: c}))
                            rl, rh = self.ival(rest, depth - 1)
                            ql, qh = imul((1, P25519), (u, u))
                            lo, hi = max(lo, rl + ql), min(hi, rh + qh)
                    continue
                if k[0] in self.pair:
                    q, ql, qh = self.pair[k[0]]
                    u = c * q.d[k]
                    rest = psub(p, pscale(q, u))
                    if len(rest.d) < len(p.d):
                        rl, rh = self.ival(rest, depth - 1)
                        ql, qh = imul((ql, qh), (u, u))
                        lo, hi = max(lo, rl + ql), min(hi, rh + qh)
                # p = u*(floor(R/g) - q*f) + rest with g = m/q, |c| = u*q
                for base, width in floor_pairs(a, c):
                    rest = psub(p, base)
                    if len(rest.d) >= len(p.d):
                        continue
                    rl, rh = self.ival(rest, depth - 1)
                    lo, hi = max(lo, rl + width[0]), min(hi, rh + width[1])
            if depth >= 2 and len(p.d) > 2:
                r = self.split(p, lo, hi, depth)
                if r:
                    lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def split(self, p, lo, hi, depth):
        """p = u*R + w*f + rest for a floor atom f = floor(R/m) with few values"""
        best = None
        for k, c in p.d.items():
            if len(k) != 1:
                continue
            a = K.atoms[k[0]]
            if a.kind != 'f' or len(a.arg.d) < 2 or len(a.arg.d) > len(p.d):
                continue
            fl, fh = ival_mono(k, self.atom)
            if fl == NEG or fh == POS or fh - fl > 4 or fh == fl:
                continue
            # factor u from the largest term of R
            kk = max(a.arg.d, key=lambda z: abs(a.arg.d[z]))
            if kk not in p.d or p.d[kk] % a.arg.d[kk]:
                continue
            u = p.d[kk] // a.arg.d[kk]
            if u == 0:
                continue
            rest = psub(psub(p, pscale(a.arg, u)), Poly({k: c}))
            if len(rest.d) + 1 >= len(p.d):
                continue
            rl, rh = self.ival(a.arg, depth - 1)
            ql, qh = self.ival(rest, depth - 1)
            nl, nh = POS, NEG
            for v in range(int(fl), int(fh) + 1):
                xl, xh = max(rl, v * a.m), min(rh, v * a.m + a.m - 1)
                if xl > xh:
                    continue
                yl, yh = imul((xl, xh), (u, u))
                nl = min(nl, yl + c * v + ql)
                nh = max(nh, yh + c * v + qh)
            if nl <= nh and (best is None or nh - nl < best[1] - best[0]):
                best = (nl, nh)
        return best


NOB = Bounds()


def floor_pairs(a, c):
    key = (a.id, c)
    r = K.fpairs.get(key)
    if r is not None:
        return r
    r = K.fpairs[key] = []
    s = -1 if c < 0 else 1
    c = abs(c)
    qs = []
    if c >= a.m:
        qs.append(a.m)
    elif a.m % c == 0:
        qs.append(c)
    for q in qs:
        u = c // q
        g = a.m // q
        if g == 1:
            F, w = a.arg, a.m - gcd(content(a.arg, True), a.m)
        else:
            F, w = fdiv(a.arg, g), q - 1
        base = pscale(psub(F, pscale(pa(a), q)), -s * u)
        r.append((base, (0, w * u) if s < 0 else (-w * u, 0)))
    return r


def fdiv(p, m, b=NOB):
    """exact floor(p/m) as a polynomial"""
    assert m > 0
    if m == 1:
        return p
    if ISZ and len(p.d) == 3 and any(len(k) == 1 and k[0] in ISZ for k in p.d):
        lo, hi = b.ival(p)
        if 0 <= lo and hi < m:
            return ZERO
    if b.dis and len(p.d) > 1:
        o = b.dis.get(p.key())
        if o is not None and m % (1 << o[0]) == 0:
            return fdiv(o[1], m >> o[0], b)
    out = {}
    rest = {}
    h = m // 2
    for k, c in p.d.items():
        q, r = divmod(c, m)
        if k and r > h:
            r -= m
            q += 1
        if q:
            out[k] = q
        if r:
            rest[k] = r
    if not rest:
        return Poly(out)
    c0 = rest.pop((), 0)
    if not rest:
        return Poly(out)
    # divide by the common factor
    g = m
    for c in rest.values():
        g = gcd(g, c)
        if g == 1:
            break
    if g > 1:
        rest = {k: c // g for k, c in rest.items()}
        c0 //= g
        m //= g
        if m == 1:
            r = Poly(rest)
            if c0:
                r = padd(r, pc(c0))
            return padd(Poly(out), r)
    # nested floors with coefficient 1
    best = None
    for k, c in rest.items():
        if c == 1 and len(k) == 1:
            a = K.atoms[k[0]]
            if a.kind == 'f' and p.d[k] == g and (best is None or (a.m, -a.id) > (best.m, -best.id)):
                best = a
    if best is not None:
        q = dict(rest)
        del q[(best.id,)]
        if c0:
            q[()] = c0
        inner = padd(pscale(Poly(q), best.m), best.arg)
        return padd(Poly(out), fdiv(inner, m * best.m, b))
    if c0:
        rest[()] = c0
    rp = Poly(rest)
    # range collapse
    lo, hi = b.ival(rp, 1)
    if lo != NEG and hi != POS and lo // m == hi // m:
        r = padd(Poly(out), pc(lo // m))
        return r
    # a coefficient of half the divisor has two representatives
    if m % 2 == 0 and len(rest) <= 60:
        for k, c in rest.items():
            if k and c == m // 2:
                r2 = dict(rest)
                r2[k] = -c
                r2 = Poly(r2)
                lo, hi = b.ival(r2, 1)
                if lo != NEG and hi != POS and lo // m == hi // m:
                    o = padd(Poly(out), pc(lo // m))
                    return padd(o, Poly({k: 1}))
                break
    # drop a low part: rest = A + g*B, 0 <= A < g, g | m
    if len(rest) <= 60:
        cand = set()
        for k, c in rest.items():
            gg = gcd(c, m)
            if gg > 1:
                cand.add(gg)
        for gg in sorted(cand, reverse=True):
            A = Poly({k: c for k, c in rest.items() if c % gg})
            if not A.d or len(A.d) == len(rest):
                continue
            lo, hi = b.ival(A, 1)
            if lo != NEG and hi != POS and lo // gg == hi // gg:
                B = psub(rp, A)
                B = Poly({k: c // gg for k, c in B.d.items()})
                if lo // gg:
                    B = padd(B, pc(lo // gg))
                return padd(Poly(out), fdiv(B, m // gg, b))
    key = ('f', rp.key(), m)
    i = K.index.get(key)
    if i is None:
        lo, hi = NOB.ival(rp, 1)
        a = K._new('f', key, None if lo == NEG else lo // m, None if hi == POS else hi // m)
        a.arg = rp
        a.m = m
        i = a.id
    return padd(Poly(out), Poly({(i,): 1}))


def pmod(p, m, b=NOB):
    return psub(p, pscale(fdiv(p, m, b), m))


def show_atom(i, depth=3):
    a = K.atoms[i]
    if a.kind == 'v':
        return a.name
    if a.kind == 'f':
        if depth <= 0:
            return 'fl%d' % i
        return 'floor((%s)/%s)' % (show(a.arg, depth - 1), hexish(a.m))
    return '%s$%d' % (a.name, i)


def hexish(c):
    if abs(c) < 100000:
        return str(c)
    if c > 0 and c & (c - 1) == 0:
        return '2^%d' % (c.bit_length() - 1)
    if c < 0 and (-c) & (-c - 1) == 0:
        return '-2^%d' % ((-c).bit_length() - 1)
    return hex(c)


def show(p, depth=3):
    if not p.d:
        return '0'
    items = sorted(p.d.items())
    s = []
    for k, c in items[:12]:
        t = '*'.join(show_atom(i, depth - 1) for i in k)
        s.append((hexish(c) + ('*' + t if t else '')) if c != 1 or not t else t)
    if len(items) > 12:
        s.append('...(%d terms)' % len(items))
    return ' + '.join(s)


# ---------------------------------------------------------------- subst
def subst(p, env, cache=None, b=NOB):
    """replace atoms (id -> Poly), also inside floor atoms"""
    if not env:
        return p
    if cache is None:
        cache = {}
    d = ZERO
    hit = False
    keep = {}
    for k, c in p.d.items():
        rs = None
        for i in k:
            r = subst_atom(i, env, cache, b)
            if r is not None:
                if rs is None:
                    rs = {}
                rs[i] = r
        if rs is None:
            keep[k] = c
            continue
        hit = True
        t = pc(c)
        for i in k:
            t = pmul(t, rs[i] if i in rs else Poly({(i,): 1}))
        d = padd(d, t)
    if not hit:
        return p
    return padd(Poly(keep), d)


def subst_atom(i, env, cache, b):
    if i in env:
        return env[i]
    if i in cache:
        return cache[i]
    a = K.atoms[i]
    r = None
    if a.kind == 'f':
        q = subst(a.arg, env, cache, b)
        if q is not a.arg and q.d != a.arg.d:
            r = fdiv(q, a.m, b)
    elif a.kind == 'u' and a.data[1] in REBUILD:
        r = REBUILD[a.data[1]](a, env, cache, b)
    cache[i] = r
    return r


REBUILD = {}


# ---------------------------------------------------------------- F_p polynomials
class FP:
    """polynomial over F_p; monomials are tuples of (atom id, exponent), sorted,
    exponents may be huge, negative only for atoms known to be nonzero"""
    __slots__ = ('d', '_k')

    def __init__(self, d):
        self.d = d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __add__(self, o):
        o = fp(o)
        d = dict(self.d)
        for k, v in o.d.items():
            n = (d.get(k, 0) + v) % P25519
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return FP(d)

    __radd__ = __add__

    def __neg__(self):
        return FP({k: P25519 - v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-fp(o))

    def __rsub__(self, o):
        return fp(o) + (-self)

    def __mul__(self, o):
        o = fp(o)
        d = {}
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                k = mmul(k1, k2)
                n = (d.get(k, 0) + v1 * v2) % P25519
                if n:
                    d[k] = n
                else:
                    d.pop(k, None)
        return FP(d)

    __rmul__ = __mul__

    def __pow__(self, e):
        if e < 0:
            return finv(self) ** (-e)
        if len(self.d) == 1:
            (k, c), = self.d.items()
            return fpow(self, e)
        if e > 64:
            raise ValueError('power of a sum')
        r = fp(1)
        for _ in range(e):
            r = r * self
        return r

    def __eq__(self, o):
        return isinstance(o, FP) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        for k, c in list(sorted(self.d.items()))[:10]:
            c = c if c <= P25519 // 2 else c - P25519
            t = '*'.join(show_atom(i, 1) + ('^%d' % e if e != 1 else '') for i, e in k)
            out.append('%s%s' % (hexish(c), '*' + t if t else ''))
        if len(self.d) > 10:
            out.append('...')
        return ' + '.join(out)


def mmul(k1, k2):
    if not k1:
        return k2
    if not k2:
        return k1
    d = dict(k1)
    for a, e in k2:
        n = d.get(a, 0) + e
        if n > BIGEXP or n < -BIGEXP:
            n = expnorm(a, n)
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


BIGEXP = 1 << 253


def expnorm(a, n):
    """exponents modulo p-1 (Fermat): x^p = x; symmetric range for nonzero atoms"""
    m = P25519 - 1
    if K.atoms[a].nz:
        n %= m
        return n - m if n > m // 2 else n
    if n > m:
        return (n - 1) % m + 1
    return n


def fp(x):
    if isinstance(x, FP):
        return x
    if isinstance(x, int):
        x %= P25519
        return FP({(): x}) if x else FP({})
    if isinstance(x, Poly):
        return finject(x)
    if isinstance(x, Atom):
        return FP({((x.id, 1),): 1})
    raise TypeError(x)


def finject(p):
    """image in F_p of an integer polynomial"""
    out = {}
    slow = []
    for k, c in p.d.items():
        c %= P25519
        if not c:
            continue
        special = False
        for i in k:
            if i in K.pivot or (K.atoms[i].kind == 'u' and K.atoms[i].data[1] == 'can'):
                special = True
        if special:
            slow.append((k, c))
            continue
        m = ()
        for i in k:
            m = mmul(m, ((i, 1),))
        n = (out.get(m, 0) + c) % P25519
        if n:
            out[m] = n
        else:
            out.pop(m, None)
    r = FP(out)
    for k, c in slow:
        t = fp(c)
        for i in k:
            if i in K.pivot:
                t = t * K.pivot[i]
            elif K.atoms[i].kind == 'u' and K.atoms[i].data[1] == 'can':
                t = t * K.atoms[i].arg
            else:
                t = t * fp(K.atoms[i])
        r = r + t
    return r


def fimg(p):
    """field image of an integer polynomial; long sums are named by one atom"""
    if len(p.d) <= 4:
        return finject(p)
    a = K.func('fi', p.key())
    a.arg = p
    return fp(a)


def fpow(f, e):
    """f^e for e >= 0; large powers of sums become powers of an abbreviation atom"""
    if e == 0:
        return fp(1)
    if len(f.d) == 0:
        return f
    if len(f.d) == 1:
        (k, c), = f.d.items()
        out = []
        for a, x in k:
            n = x * e
            if n > BIGEXP or n < -BIGEXP:
                n = expnorm(a, n)
            if n:
                out.append((a, n))
        return FP({tuple(out): pow(c, e, P25519)})
    if e <= 16:
        r = fp(1)
        for _ in range(e):
            r = r * f
        return r
    # normalise: leading coefficient one
    f = fnorm(f)
    if len(f.d) <= 1:
        return fpow(f, e)
    lead = max(f.d)
    c = f.d[lead]
    g = f * fp(pow(c, P25519 - 2, P25519))
    parts = squarefree(g)
    if parts is not None:
        # a power of a product with repeated factors: one abbreviation for each factor
        r = fp(pow(c, e % (P25519 - 1), P25519))
        for q, n in parts:
            r = r * fpow(q, n * e)
        return r
    a = K.func('ab', g.key())
    a.arg = g
    if not a.nz and nonzero_known(g):
        a.nz = True
    if e > BIGEXP:
        e = expnorm(a.id, e)
    return FP({((a.id, e),): pow(c, e % (P25519 - 1), P25519)})


def _updivmod(a, b):
    """division of polynomials over GF(p) in one variable (lists of coefficients, lowest first)"""
    a, q = list(a), [0] * max(len(a) - len(b) + 1, 0)
    inv = pow(b[-1], P25519 - 2, P25519)
    for i in range(len(a) - len(b), -1, -1):
        t = a[i + len(b) - 1] * inv % P25519
        q[i] = t
        if t:
            for j, x in enumerate(b):
                a[i + j] = (a[i + j] - t * x) % P25519
    while a and a[-1] == 0:
        a.pop()
    return q, a


def _upgcd(a, b):
    while b:
        a, b = b, _updivmod(a, b)[1]
    i = pow(a[-1], P25519 - 2, P25519)
    return [x * i % P25519 for x in a]


def squarefree(f):
    """[(q, n)] with f the product of the q^n, when f is a monic polynomial in one atom with a
    repeated factor; None otherwise (Yun's algorithm; the degree is far below the characteristic)"""
    var, deg = None, 0
    for k in f.d:
        if len(k) > 1 or (k and (k[0][1] < 0 or k[0][1] > 64 or (var is not None and var != k[0][0]))):
            return None
        if k:
            var, deg = k[0][0], max(deg, k[0][1])
    if deg < 2:
        return None
    a = [0] * (deg + 1)
    for k, c in f.d.items():
        a[k[0][1] if k else 0] = c
    d = [i * c % P25519 for i, c in enumerate(a)][1:]
    g = _upgcd(a, d)
    if len(g) == 1:
        return None
    out, n = [], 1
    b, c = _updivmod(a, g)[0], _updivmod(d, g)[0]
    while len(b) > 1:
        bd = [i * x % P25519 for i, x in enumerate(b)][1:]
        t = [((c[i] if i < len(c) else 0) - (bd[i] if i < len(bd) else 0)) % P25519
             for i in range(max(len(c), len(bd)))]
        while t and t[-1] == 0:
            t.pop()
        q = _upgcd(b, t) if t else [x * pow(b[-1], P25519 - 2, P25519) % P25519 for x in b]
        if len(q) > 1:
            out.append((FP({(((var, i),) if i else ()): x for i, x in enumerate(q) if x}), n))
        b, c, n = _updivmod(b, q)[0], _updivmod(t, q)[0] if t else [], n + 1
    return out


def _rebuild_ab(a, env, cache, b):
    return None


DINV = pow(D25519, P25519 - 2, P25519)


def fnorm(f):
    """normal form modulo the curve equations of all point symbols:
    x^2 y^2 -> (y^2 - x^2 - 1)/d"""
    if not K.curvepts:
        return f
    work = f
    for _ in range(200):
        changed = False
        out = FP({})
        d = {}
        for k, c in work.d.items():
            ex = dict(k)
            done = False
            for (a, e) in k:
                y = K.curve.get(a)
                if y is None or e < 2 or ex.get(y, 0) < 2:
                    continue
                # a = x atom (curve maps only x -> y)
                n = min(e, ex[y]) // 2
                base = dict(ex)
                base[a] -= 2 * 1
                base[y] -= 2 * 1
                mono = tuple(sorted((i, j) for i, j in base.items() if j))
                t = FP({mono: c * DINV % P25519}) * FP({((y, 2),): 1, ((a, 2),): P25519 - 1, (): P25519 - 1})
                out = out + t
                done = True
                break
            if done:
                changed = True
            else:
                d[k] = c
        work = FP(d) + out
        if not changed:
            return work
    raise RuntimeError('fnorm')


def fzero(f, depth=0):
    """is f zero modulo the curve equations (after clearing negative exponents)"""
    if not f.d:
        return True
    neg = {}
    for k in f.d:
        for a, e in k:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    if neg:
        f = f * FP({tuple(sorted((a, -e) for a, e in neg.items())): 1})
    f = fnorm(f)
    if not f.d:
        return True
    if depth < 6:
        # expand abbreviations with small exponents; multiply out inverses w*f = 1
        for k in f.d:
            for a, e in k:
                at = K.atoms[a]
                if at.kind == 'u' and at.data[1] == 'ab':
                    es = [dict(kk).get(a, 0) for kk in f.d]
                    mn = min(es)
                    if mn < 0 or max(es) - mn > 8:
                        continue
                    r = FP({})
                    for kk, c in f.d.items():
                        x = dict(kk).get(a, 0) - mn
                        r = r + FP({tuple((i, y) for i, y in kk if i != a): c}) * fpow(at.arg, x)
                    return fzero(r, depth + 1)
                if at.kind == 'u' and at.data[1] == 'finv' and all(
                        0 <= x <= 8 for kk in f.d for i, x in kk if i == a):
                    mx = max(dict(kk).get(a, 0) for kk in f.d)
                    r = FP({})
                    for kk, c in f.d.items():
                        x = dict(kk).get(a, 0)
                        r = r + FP({tuple((i, y) for i, y in kk if i != a): c}) * fpow(at.arg, mx - x)
                    return fzero(r, depth + 1)
    return False


def fcollect(f):
    """absorb polynomial factors into the large powers of the abbreviation they are equal to"""
    big = {a for k in f.d for a, e in k if e > 16 and K.atoms[a].kind == 'u' and K.atoms[a].data[1] == 'ab'}
    for a in sorted(big):
        groups = {}
        for k, c in f.d.items():
            e = dict(k).get(a, 0)
            groups.setdefault(e, {})[tuple((i, x) for i, x in k if i != a)] = c
        r = FP({})
        arg = K.atoms[a].arg
        for e, d in groups.items():
            g = FP(d)
            while e > 16 and len(g.d) > 1 and all(x > 0 for k in g.d for _, x in k):
                q = fdivide(g, arg)
                if q is None:
                    break
                g, e = q, e + 1
            e = expnorm(a, e) if e > BIGEXP else e
            r = r + (g * FP({((a, e),): 1}) if e else g)
        f = r
    return f


def nonzero_known(f, facts=None):
    """f is certainly nonzero: a monomial of nonzero atoms, or such a monomial times
    1 +- d*x1*x2*y1*y2 for curve points (lemma edwards_complete), see NZ_PRODUCTS"""
    f = fnorm(f)
    if not f.d:
        return False
    if len(f.d) == 1:
        (k, c), = f.d.items()
        return all(K.atoms[a].nz for a, e in k)
    for g in NZ_PRODUCTS():
        q = fquot_monomial(f, g)
        if q is not None:
            (k, c), = q.d.items()
            if all(K.atoms[a].nz for a, e in k):
                return True
    return False


def fquot_monomial(f, g):
    """monomial q with f = q*g modulo the curve ideal, or None"""
    g0 = fnorm(g)
    if not g0.d or not f.d:
        return None
    gk = max(g0.d)
    tried = set()
    for gk, gc in g0.d.items():
        for fk, fc in f.d.items():
            q = mmul(fk, tuple((a, -e) for a, e in gk))
            if any(e < 0 and not K.atoms[a].nz for a, e in q):
                continue
            qq = FP({q: fc * pow(gc, P25519 - 2, P25519) % P25519})
            if qq.key() in tried:
                continue
            tried.add(qq.key())
            if fzero(f - qq * g):
                return qq
    return None


def fdivide(f, g):
    """q with f = q*g as polynomials with nonnegative exponents, or None"""
    def order(k):
        return (sum(e for a, e in k), k)
    gk = max(g.d, key=order)
    gi = pow(g.d[gk], P25519 - 2, P25519)
    inv = tuple((a, -e) for a, e in gk)
    q, n = FP({}), 0
    while f.d:
        n += 1
        fk = max(f.d, key=order)
        m = mmul(fk, inv)
        if n > 400 or any(e < 0 for a, e in m):
            return None
        t = FP({m: f.d[fk] * gi % P25519})
        q, f = q + t, f - t * g
        if fk in f.d:
            return None
    return q


def strip_units(f):
    """divide by the largest monomial of nonzero atoms"""
    if not f.d:
        return f
    m = None
    for k in f.d:
        e = dict((a, x) for a, x in k if K.atoms[a].nz)
        if m is None:
            m = e
        else:
            m = {a: min(m.get(a, 0), e.get(a, 0)) for a in set(m) | set(e)}
    m = tuple(sorted((a, -x) for a, x in m.items() if x))
    return FP({mmul(k, m): c for k, c in f.d.items()}) if m else f


def ideal_member(f, gs):
    """f is a combination of the gs with multipliers of degree at most one (sound, incomplete)"""
    f = strip_units(fnorm(f))
    if not f.d:
        return True
    gs = [strip_units(fnorm(g)) for g in gs]
    gs = [g for g in gs if 0 < len(g.d) <= 40]
    if not gs or len(gs) > 12 or len(f.d) > 40:
        return False
    ats = sorted({a for g in gs + [f] for k in g.d for a, e in k})
    if len(ats) > 14:
        return False
    rows = {}          # leading monomial -> polynomial

    def reduce(h):
        h = dict(h)
        out = {}
        while h:
            k = max(h)
            c = h.pop(k)
            r = rows.get(k)
            if r is None:
                out[k] = c
                continue
            for kk, cc in r.items():
                if kk != k:
                    n = (h.get(kk, 0) - c * cc) % P25519
                    if n:
                        h[kk] = n
                    else:
                        h.pop(kk, None)
        return out

    def insert(h):
        h = reduce(h)
        if h:
            k = max(h)
            ci = pow(h[k], P25519 - 2, P25519)
            rows[k] = {kk: c * ci % P25519 for kk, c in h.items()}
    for g in gs:
        insert(g.d)
    if not reduce(f.d):
        return True
    for a in ats:
        for g in gs:
            insert(fnorm(g * FP({((a, 1),): 1})).d)
            if K.atoms[a].nz:
                insert(fnorm(g * FP({((a, -1),): 1})).d)
    return not reduce(f.d)


NZ_LIST = []


def NZ_PRODUCTS():
    return NZ_LIST


def finv(f):
    f = fp(f)
    if len(f.d) == 1:
        (k, c), = f.d.items()
        if all(K.atoms[a].nz for a, e in k):
            return FP({tuple((a, -e) for a, e in k): pow(c, P25519 - 2, P25519)})
    c = f.const()
    if c is not None:
        return fp(pow(c, P25519 - 2, P25519))
    a = K.func('finv', fnorm(f).key())
    a.arg = f
    return fp(a)


def can(f):
    """integer polynomial: the canonical representative in [0,p) of a field value"""
    f = fcollect(fnorm(fp(f)))
    c = f.const()
    if c is not None:
        return pc(c)
    if len(f.d) == 1:
        (k, c), = f.d.items()
        if c == 1 and len(k) == 1 and k[0][1] == 1:
            a = K.atoms[k[0][0]]
            if a.kind != 'u' or a.data[1] not in FIELD_ATOMS:
                if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < P25519 and not a.name.startswith('fld'):
                    return pa(a)
    # sign normalisation: can(-g) = p - can(g), or 0 when g = 0
    lead = max(f.d)
    if f.d[lead] > P25519 // 2:
        g = -f
        a = K.func('can', g.key(), 0, P25519 - 1)
        a.arg = g
        if nonzero_known(g):
            return psub(pc(P25519), pa(a))
        z = K.func('isz', g.key(), 0, 1)
        z.arg = g
        ISZ[z.id] = (a.id,)
        return psub(psub(pc(P25519), pa(a)), pscale(pa(z), P25519))
    a = K.func('can', f.key(), 0, P25519 - 1)
    a.arg = f
    return pa(a)


FIELD_ATOMS = {'ab', 'finv', 'px', 'py', 'fi'}


def _rebuild_can(a, env, cache, b):
    f = fsubst(a.arg, env)
    if f.d == a.arg.d:
        return None
    return can(f)


def _rebuild_isz(a, env, cache, b):
    f = fsubst(a.arg, env)
    if f.d == a.arg.d:
        return None
    c = f.const()
    if c is not None:
        return pc(1 if c == 0 else 0)
    f = fnorm(f)
    z = K.func('isz', f.key(), 0, 1)
    z.arg = f
    q = K.func('can', f.key(), 0, P25519 - 1)
    q.arg = f
    ISZ[z.id] = (q.id,)
    return pa(z)


REBUILD['isz'] = _rebuild_isz
FREBUILD = {}      # field atoms: name -> function(atom, env) -> FP or None


def fatom_subst(i, env):
    """new field value of atom i under env, or None"""
    if i in env:
        return fp(env[i])
    a = K.atoms[i]
    if a.kind == 'u':
        h = FREBUILD.get(a.data[1])
        if h is not None:
            return h(a, env)
    return None


def _frebuild_ab(a, env):
    f = fsubst(a.arg, env)
    if f.d == a.arg.d:
        return None
    return f


def _frebuild_finv(a, env):
    f = fsubst(a.arg, env)
    if f.d == a.arg.d:
        return None
    return finv(f)


def _frebuild_fi(a, env):
    q = subst(a.arg, env)
    return None if q.d == a.arg.d else fimg(q)


FREBUILD['ab'] = _frebuild_ab
FREBUILD['fi'] = _frebuild_fi
FREBUILD['finv'] = _frebuild_finv


def fsubst(f, env):
    """substitute integer atoms in a field polynomial"""
    m = {}
    for k in f.d:
        for i, e in k:
            if i not in m:
                m[i] = fatom_subst(i, env)
    if all(v is None for v in m.values()):
        return f
    r = FP({})
    for k, c in f.d.items():
        t = fp(c)
        for i, e in k:
            if m[i] is not None:
                t = t * (fpow(m[i], e) if e >= 0 else finv(m[i]) ** (-e))
            else:
                t = t * FP({((i, e),): 1})
        r = r + t
    return r


REBUILD['can'] = _rebuild_can
