"""Formal points: elements of the free abelian group over point symbols (modulo L*B = 0),
with affine coordinates in F_p."""
import kernel as kn
from kernel import K, Poly, FP, pc, pa, padd, psub, pscale, pmul, P25519, L25519, D25519, fp

BX = 15112221349535400772501151409588531511454012693041857206046113283949847762202
BY = 46316835694926478169428394003475163141307993866256225615783033603165251855960


def aff_add(p, q):
    x1, y1 = p
    x2, y2 = q
    k = D25519 * x1 * x2 * y1 * y2 % P25519
    x3 = (x1 * y2 + x2 * y1) * pow(1 + k, -1, P25519) % P25519
    y3 = (y1 * y2 + x1 * x2) * pow(1 - k, -1, P25519) % P25519
    return (x3, y3)


def aff_mul(k, p):
    r = (0, 1)
    while k:
        if k & 1:
            r = aff_add(r, p)
        p = aff_add(p, p)
        k >>= 1
    return r


_bm = {}


def bmul(k):
    k %= L25519
    r = _bm.get(k)
    if r is None:
        r = aff_mul(k, (BX, BY))
        _bm[k] = r
    return r


def modLsym(p):
    d = {}
    for k, c in p.d.items():
        c %= L25519
        if c > L25519 // 2:
            c -= L25519
        if c:
            d[k] = c
    return Poly(d)


class Pt:
    """formal combination symbol -> coefficient polynomial"""
    __slots__ = ('d', '_k')

    def __init__(self, d):
        out = {}
        for s, c in d.items():
            if s == 'B':
                c = modLsym(c)
            if c.d:
                out[s] = c
        self.d = out
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted((s, tuple(sorted(c.d.items()))) for s, c in self.d.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Pt) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __neg__(self):
        return Pt({s: pscale(c, -1) for s, c in self.d.items()})

    def __add__(self, o):
        d = dict(self.d)
        for s, c in o.d.items():
            d[s] = padd(d[s], c) if s in d else c
        return Pt(d)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, p):
        if isinstance(p, int):
            p = pc(p)
        return Pt({s: pmul(c, p) for s, c in self.d.items()})

    def simp(self, st):
        if not st.env:
            return self
        return Pt({s: st.simp(c) for s, c in self.d.items()})

    def __repr__(self):
        if not self.d:
            return 'O'
        return ' + '.join('[%s]%s' % (kn.show(c), s) for s, c in sorted(self.d.items()))


O = Pt({})


def sym(name, coef=1):
    return Pt({name: pc(coef)})


REG = {}        # (x key, y key) -> Pt
SYMS = []       # base symbols with coordinates registered in this process


def canon_sign(pt):
    s, c = pt.key()[0]
    lead = max(c)
    return lead[1] > 0


def coords(pt):
    """affine coordinates (FP, FP)"""
    if not pt.d:
        return fp(0), fp(1)
    if list(pt.d) == ['B']:
        c = pt.d['B'].const()
        if c is not None:
            x, y = bmul(c)
            return fp(x), fp(y)
    pos = canon_sign(pt)
    q = pt if pos else -pt
    k = q.key()
    x = K.func('px', k)
    if x.arg is None:
        y = K.func('py', k)
        x.arg = y.arg = q
        K.curve[x.id] = y.id
        K.curvepts.append((x.id, y.id))
        fx, fy = fp(x), fp(y)
        REG[(fx.key(), fy.key())] = q
        REG[((-fx).key(), fy.key())] = -q
        if len(k) == 1 and q.d[k[0][0]].const() == 1:
            SYMS.append(q)
    else:
        y = K.func('py', k)
        fx, fy = fp(x), fp(y)
    return (fx, fy) if pos else (-fx, fy)


def _frebuild(which):
    def f(a, env):
        q = a.arg
        n = Pt({s: kn.subst(c, env) for s, c in q.d.items()})
        if n == q:
            return None
        return coords(n)[which]
    return f


kn.FREBUILD['px'] = _frebuild(0)
kn.FREBUILD['py'] = _frebuild(1)

KNOWN = {}


def known_multiples():
    """numeric points that are recognised as small / table multiples of B"""
    if KNOWN:
        return KNOWN
    KNOWN[(0, 1)] = 0
    p = (BX, BY)
    for i in range(32):
        q = p
        for j in range(1, 9):
            KNOWN.setdefault(q, j * 256 ** i)
            q = aff_add(q, p)
        for _ in range(8):
            p = aff_add(p, p)
    b = (BX, BY)
    b2 = aff_add(b, b)
    q = b
    for k in range(8):
        KNOWN.setdefault(q, 2 * k + 1)
        q = aff_add(q, b2)
    for (x, y), k in list(KNOWN.items()):
        KNOWN.setdefault(((-x) % P25519, y), -k)
    return KNOWN


def from_affine(st, x, y):
    """the formal point with these affine coordinates, or None"""
    r = REG.get((x.key(), y.key()))
    if r is not None:
        return r
    cx, cy = x.const(), y.const()
    if cx is not None and cy is not None:
        k = known_multiples().get((cx, cy))
        if k is None:
            return None
        return Pt({'B': pc(k)})
    if st is not None and st.env:
        x2, y2 = kn.fnorm(st.fsimp(x)), kn.fnorm(st.fsimp(y))
        if x2.d != x.d or y2.d != y.d:
            return from_affine(None, x2, y2)
    return None


def syms_of(*fs):
    out = []
    for f in fs:
        for k in f.d:
            for a, e in k:
                at = K.atoms[a]
                if at.kind == 'u' and at.data[1] in ('px', 'py') and at.arg not in out:
                    out.append(at.arg)
    return out


def is_multiple_of(X, Z, Y, W, pt):
    """X/Z = x(pt) and Y/W = y(pt)"""
    x, y = ratio(pt)
    return kn.fzero(X * x[1] - x[0] * Z) and kn.fzero(Y * y[1] - y[0] * W)


def ratio(expr):
    """coordinates of a point expression as (numerator, denominator) pairs;
    expr: Pt | ('add', P, Q)"""
    if isinstance(expr, Pt):
        x, y = coords(expr)
        return (x, fp(1)), (y, fp(1))
    _, p, q = expr
    x1, y1 = coords(p)
    x2, y2 = coords(q)
    t = fp(D25519) * x1 * x2 * y1 * y2
    return (x1 * y2 + x2 * y1, fp(1) + t), (y1 * y2 + x1 * x2, fp(1) - t)


def register_sum(p, q):
    """the denominators of the addition law never vanish (lemma edwards_complete)"""
    x1, y1 = coords(p)
    x2, y2 = coords(q)
    t = fp(D25519) * x1 * x2 * y1 * y2
    for f in (fp(1) + t, fp(1) - t):
        if f.const() is None and all(f.d != g.d for g in kn.NZ_LIST):
            kn.NZ_LIST.append(f)
