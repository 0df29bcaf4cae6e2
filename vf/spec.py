"""Contract language: argument and result shapes, contracts, verification of one function body
against its contract, and use of a contract at a call site."""
import time
import kernel as kn
from kernel import (K, Poly, FP, pc, pa, padd, psub, pscale, pmul, fdiv, pmod, NEG, POS,
                    P25519, L25519, D25519, fp, finject, can)
from state import *
from exec import *
import exec as ex_
import models
import points
from points import Pt, coords

EXPS = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230]


def bnd(c):
    """limb bounds c*2^25 / c*2^24 (c in hundredths of 2^25 units)"""
    return tuple((c * (1 << (25 - i % 2))) // 100 for i in range(10))


MULIN = bnd(330)     # 1.65*2^26
MULOUT = bnd(101)
FEB = bnd(110)       # 1.1*2^25
ADDOUT = bnd(220)    # 1.1*2^26
ENCIN = tuple((1 << (27 - i % 2)) - 1 for i in range(10))


class NoMatch(Exception):
    pass


class Obl:
    __slots__ = ('func', 'name', 'ok', 'backend', 'time', 'detail', 'trace')

    def __init__(self, func, name, ok, backend='kernel', time=0.0, detail='', trace=()):
        self.func, self.name, self.ok = func, name, ok
        self.backend, self.time, self.detail, self.trace = backend, time, detail, trace


class Ctx:
    """program information shared by all shapes"""
    def __init__(self, ex):
        self.ex = ex
        prog = ex.prog
        self.prog = prog
        self.P = prog.pkg + '.'
        self.FE = self.tid('Ed25519FieldElement')
        self.EF = self.tid('Ed25519EncodedFieldElement')
        self.EG = self.tid('Ed25519EncodedGroupElement')
        self.GE = self.tid('Ed25519GroupElement')
        self.ef = self.fields(self.EF)
        self.eg = self.fields(self.EG)
        self.ge = self.fields(self.GE)
        self.fe_cache = {}
        self.tables = {}

    def tid(self, name):
        return self.prog.byname.get(self.P + name)

    def fields(self, t):
        if t is None:
            return {}
        return {f['name']: i for i, f in enumerate(self.prog.under(t)['fields'])}

    # ---- field elements
    def limbs(self, v):
        if isinstance(v, St) and len(v) == 1 and isinstance(v[0], Ar) and len(v[0]) == 10:
            return v[0]
        raise NoMatch('not a field element')

    def fe_fp(self, st, v):
        ls = self.limbs(v)
        key = id(ls)
        c = self.fe_cache.get(key)
        if c is not None and c[0] is ls:
            return kn.fnorm(st.fsimp(c[1])) if st.env else c[1]
        s = kn.ZERO
        for i, l in enumerate(ls):
            s = padd(s, pscale(l.p, 1 << EXPS[i]))
        if st.env:
            return kn.fnorm(st.fsimp(finject(st.simp(s))))
        f = kn.fnorm(finject(s))
        self.fe_cache[key] = (ls, f)
        return f

    def fe_within(self, st, v, bound):
        for i, l in enumerate(self.limbs(v)):
            if -bound[i] <= l.lo and l.hi <= bound[i]:
                continue
            lo, hi = st.b.ival(st.simp(l.p))
            if not (-bound[i] <= lo and hi <= bound[i]):
                return False
        return True

    def fe_make(self, st, f, bound):
        """fresh field element with value f (FP) and limbs within the bound"""
        f = kn.fnorm(f)
        c = f.const()
        ats = [K.fresh('l', -bound[i], bound[i]) for i in range(10)]
        s = f
        for i in range(1, 10):
            s = s - FP({((ats[i].id, 1),): (1 << EXPS[i]) % P25519})
        K.pivot[ats[0].id] = s
        ls = Ar([IV(pa(a), -bound[i], bound[i]) for i, a in enumerate(ats)])
        v = St([ls])
        if not st.env:
            self.fe_cache[id(ls)] = (ls, f)
        return v

    def alloc(self, st, v):
        o = new_obj()
        st.heap[o] = v
        return Ptr(o)

    # ---- byte strings
    def bytes_make(self, st, ivs):
        return models.bytes_obj(st, ivs)

    def bytes_of(self, st, s, n=None):
        """list of byte values of a slice with concrete length"""
        if not isinstance(s, Slice):
            raise NoMatch('not a slice')
        l = st.iconst(s.len)
        if l is None or (n is not None and l != n):
            raise NoMatch('length')
        if l == 0:
            return []
        es = pieces_elems(self.ex.slice_content(st, s))
        if es is None:
            raise NoMatch('content')
        return es


def le_value(ivs):
    return models.le_value(ivs)


# ================================================================= shapes
class Shape:
    """argument shape: make(cx, st) -> (value, param); match(cx, st, value) -> param"""


class FEV(Shape):
    def __init__(self, name, bound=MULIN, ptr=False, nz=False):
        self.name, self.bound, self.ptr, self.nz = name, bound, ptr, nz

    def make(self, cx, st):
        a = K.var('fld:' + self.name + ('!=0' if self.nz else ''))
        a.nz = self.nz
        v = cx.fe_make(st, fp(a), self.bound)
        p = fp(a)
        return (cx.alloc(st, v) if self.ptr else v), p

    def match(self, cx, st, v):
        if self.ptr:
            if not isinstance(v, Ptr):
                raise NoMatch('not a pointer')
            v = cx.ex.load(st, v)
        f = cx.fe_fp(st, v)
        if not cx.fe_within(st, v, self.bound):
            raise NoMatch('limb bounds')
        return f


class ENCF(Shape):
    """pointer to an encoded field element of n bytes; param: integer value"""
    def __init__(self, name, n=32, hi=None, typ='EF', zero=True):
        self.name, self.n, self.hi, self.typ, self.zero = name, n, hi, typ, zero

    def make(self, cx, st):
        bs = [iatom(K.var('%s[%d]' % (self.name, i), 0, 255)) for i in range(self.n)]
        raw = cx.bytes_make(st, bs)
        V = le_value(bs)
        if self.hi is not None:
            st.assume(le0(psub(V, pc(self.hi))))
            st.b.record(V, 0, self.hi)
        return mk_enc(cx, st, raw, self.typ), V

    def match(self, cx, st, v):
        if not isinstance(v, Ptr):
            raise NoMatch('not a pointer')
        s = cx.ex.load(st, v)
        d = cx.ef if self.typ == 'EF' else cx.eg
        bs = cx.bytes_of(st, s[d['Raw']], self.n)
        if self.typ == 'EF' and 'zero' in d and self.zero:
            z = cx.bytes_of(st, s[d['zero']], self.n)
            if any(b.const() != 0 for b in z):
                raise NoMatch('zero field')
        V = st.simp(le_value(bs))
        if self.hi is not None:
            if st.decide(le0(psub(V, pc(self.hi)))) is not True:
                raise NoMatch('value bound')
        return V


def mk_enc(cx, st, raw, typ):
    if typ == 'EF':
        z = cx.prog.zero(cx.EF)
        z = list(z)
        z[cx.ef['Raw']] = raw
        if 'zero' in cx.ef:
            n = st.iconst(raw.len)
            z[cx.ef['zero']] = cx.bytes_make(st, [ic(0)] * n)
        return cx.alloc(st, St(z))
    z = list(cx.prog.zero(cx.EG))
    z[cx.eg['Raw']] = raw
    return cx.alloc(st, St(z))


class ANY(Shape):
    """an argument that is not inspected (receiver of helper types)"""
    def __init__(self, mk=None):
        self.mk = mk

    def make(self, cx, st):
        return (self.mk(cx, st) if self.mk else NIL), None

    def match(self, cx, st, v):
        return None


class INT(Shape):
    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi

    def make(self, cx, st):
        a = K.var(self.name, self.lo, self.hi)
        v = iatom(a)
        return v, v.p

    def match(self, cx, st, v):
        p = st.simp(v.p)
        lo, hi = st.b.ival(p)
        if max(lo, v.lo) < self.lo or min(hi, v.hi) > self.hi:
            raise NoMatch('integer range')
        return p


class CONST(Shape):
    def __init__(self, c):
        self.c = c

    def make(self, cx, st):
        return ic(self.c), self.c

    def match(self, cx, st, v):
        if st.iconst(v) != self.c:
            raise NoMatch('constant')
        return self.c


class BOOL(Shape):
    def __init__(self, b):
        self.b = b

    def make(self, cx, st):
        return (TRUE if self.b else FALSE), self.b

    def match(self, cx, st, v):
        d = st.decide(v)
        if d is not self.b:
            raise NoMatch('boolean')
        return self.b


# ---- group elements
AFFINE, P2, P3, P1P1, PRE, CACHED = range(6)
COORD_NAMES = ['AFFINE', 'P2', 'P3', 'P1xP1', 'PRECOMPUTED', 'CACHED']


def ge_bounds(c):
    if c in (AFFINE, P2, P3):
        return [FEB] * 4
    if c == P1P1:
        return [MULIN] * 4
    if c == PRE:
        return [ADDOUT, ADDOUT, FEB, FEB]
    return [ADDOUT, ADDOUT, FEB, FEB]


NCOORD = {AFFINE: 3, P2: 3, P3: 4, P1P1: 4, PRE: 3, CACHED: 4}
TWO_INV = pow(2, P25519 - 2, P25519)
D2 = 2 * D25519 % P25519


def ge_field_values(c, x, y, z, t):
    """coordinate field values of the point (x, y) with scalings z (and t for P1xP1)"""
    if c == AFFINE:
        return [x, y, fp(1)]
    if c == P2:
        return [x * z, y * z, z]
    if c == P3:
        return [x * z, y * z, z, x * y * z]
    if c == P1P1:
        return [x * z, y * t, z, t]
    if c == PRE:
        return [y + x, y - x, fp(D2) * x * y]
    return [(y + x) * z, (y - x) * z, z, fp(D2) * x * y * z]


def fresh_nz(name):
    a = K.fresh('fldz:' + name)
    a.nz = True
    return fp(a)


def ge_make(cx, st, c, pt, z1=False, single=NILSLICE, double=NILSLICE, bounds=None, tag='z'):
    pt = pt.simp(st)
    x, y = coords(pt)
    z = fp(1) if z1 else fresh_nz(tag)
    t = fp(1) if z1 else fresh_nz(tag)
    vals = ge_field_values(c, x, y, z, t)
    bs = bounds or ge_bounds(c)
    ptrs = [cx.alloc(st, cx.fe_make(st, f, b)) for f, b in zip(vals, bs)]
    return cx.alloc(st, ge_struct(cx, c, ptrs, single, double))


def ge_struct(cx, c, ptrs, single=NILSLICE, double=NILSLICE):
    s = list(cx.prog.zero(cx.GE))
    g = cx.ge
    s[g['coordinateSystem']] = ic(c)
    for n, p in zip('XYZT', list(ptrs) + [NIL] * (4 - len(ptrs))):
        s[g[n]] = p
    s[g['precomputedForSingle']] = single
    s[g['precomputedForDouble']] = double
    return St(s)


def ge_read(cx, st, v):
    """(coord, [FP], [fe values], struct) of a group element value"""
    if isinstance(v, Ptr):
        v = cx.ex.load(st, v)
    if not isinstance(v, St) or len(v) != len(cx.ge):
        raise NoMatch('not a group element')
    g = cx.ge
    c = st.iconst(v[g['coordinateSystem']])
    if c is None or c not in NCOORD:
        raise NoMatch('coordinate system')
    fes = []
    for n in 'XYZT'[:NCOORD[c]]:
        p = v[g[n]]
        if not isinstance(p, Ptr):
            raise NoMatch('nil coordinate')
        fes.append(cx.ex.load(st, p))
    return c, [cx.fe_fp(st, f) for f in fes], fes, v


def fmono_inv(f):
    f = kn.fnorm(f)
    if len(f.d) == 1:
        (k, c), = f.d.items()
        if all(K.atoms[a].nz for a, e in k):
            return kn.finv(f)
    return None


def ge_point(cx, st, c, fs):
    """formal point of coordinate values, or None"""
    if c == AFFINE:
        x, y = fs[0], fs[1]
        if not kn.fzero(fs[2] - fp(1)):
            return None
    elif c in (P2, P3):
        zi = fmono_inv(fs[2])
        if zi is None:
            return None
        x, y = fs[0] * zi, fs[1] * zi
        if c == P3 and not kn.fzero(fs[3] * fs[2] - fs[0] * fs[1]):
            return None
    elif c == P1P1:
        zi, ti = fmono_inv(fs[2]), fmono_inv(fs[3])
        if zi is None or ti is None:
            return None
        x, y = fs[0] * zi, fs[1] * ti
    elif c == PRE:
        y = (fs[0] + fs[1]) * fp(TWO_INV)
        x = (fs[0] - fs[1]) * fp(TWO_INV)
        if not kn.fzero(fs[2] - fp(D2) * x * y):
            return None
    else:
        zi = fmono_inv(fs[2])
        if zi is None:
            return None
        y = (fs[0] + fs[1]) * fp(TWO_INV) * zi
        x = (fs[0] - fs[1]) * fp(TWO_INV) * zi
        if not kn.fzero(fs[3] - fp(D2) * x * y * fs[2]):
            return None
    return points.from_affine(st, kn.fnorm(x), kn.fnorm(y))


def ge_satisfies(cx, st, c, fs, expr):
    """list of (name, FP that must vanish) + list of FP that must not vanish, saying that the
    coordinates represent the point expression"""
    (xn, xd), (yn, yd) = points.ratio(expr)
    if c == AFFINE:
        return [('x', fs[0] * xd - xn), ('y', fs[1] * yd - yn), ('z', fs[2] - fp(1))], []
    if c == P2 or c == P3:
        r = [('x', fs[0] * xd - xn * fs[2]), ('y', fs[1] * yd - yn * fs[2])]
        if c == P3:
            r.append(('t', fs[3] * fs[2] - fs[0] * fs[1]))
        return r, [('z', fs[2])]
    if c == P1P1:
        return ([('x', fs[0] * xd - xn * fs[2]), ('y', fs[1] * yd - yn * fs[3])],
                [('z', fs[2]), ('t', fs[3])])
    if c == PRE:
        xx = (fs[0] - fs[1]) * fp(TWO_INV)
        yy = (fs[0] + fs[1]) * fp(TWO_INV)
        return [('x', xx * xd - xn), ('y', yy * yd - yn), ('2dxy', fs[2] - fp(D2) * xx * yy)], []
    xx = (fs[0] - fs[1]) * fp(TWO_INV)
    yy = (fs[0] + fs[1]) * fp(TWO_INV)
    return ([('x', xx * xd - xn * fs[2]), ('y', yy * yd - yn * fs[2]),
             ('2dt', fs[3] * fs[2] - fp(D2) * xx * yy)], [('z', fs[2])])


class GEP(Shape):
    """pointer (or value) of a group element on the curve; param: (coord, Pt)"""
    def __init__(self, name, cs, val=False, tables=None, anyc=False, pt=None, row=False):
        self.name, self.cs, self.val, self.tables = name, tuple(cs), val, tables
        self.anyc, self.pt = anyc, pt
        self.row = row

    def make(self, cx, st, c=None, pt=None):
        c = self.cs[0] if c is None else c
        pt = pt or self.pt or points.sym(self.name)
        single, double = NILSLICE, NILSLICE
        if self.tables == 'single':
            single = shared_tables(cx, pt, 'single')
        if self.tables == 'double':
            double = shared_tables(cx, pt, 'double')
        p = ge_make(cx, st, c, pt, single=single, double=double)
        if self.val:
            return cx.ex.load(st, p), GEParam(c, pt, p)
        return p, GEParam(c, pt, p)

    def match(self, cx, st, v):
        c, fs, fes, s = ge_read(cx, st, v)
        if c not in self.cs:
            raise NoMatch('coordinate system')
        for f, b in zip(fes, ge_bounds(c)):
            if not cx.fe_within(st, f, b):
                raise NoMatch('limb bounds')
        pt = ge_point(cx, st, c, fs)
        if pt is None:
            raise NoMatch('unknown point')
        if self.tables == 'single' and not self.row:
            match_single(cx, st, s[cx.ge['precomputedForSingle']], pt)
        elif self.tables == 'double':
            match_double(cx, st, s[cx.ge['precomputedForDouble']], pt)
        return GEParam(c, pt, v)


class GEParam:
    __slots__ = ('c', 'pt', 'val')

    def __init__(self, c, pt, val):
        self.c, self.pt, self.val = c, pt, val


def protect(cx, st, v):
    """the element stands for an entry of a table: it must not be written"""
    s = st.get(v.obj)
    cx.ex.readonly.add(v.obj)
    for n in 'XYZT':
        if isinstance(s[cx.ge[n]], Ptr):
            cx.ex.readonly.add(s[cx.ge[n]].obj)


def table_hook(cx):
    """element of a table of points at a symbolic index, when the entries form an arithmetic
    progression"""
    def hook(st, vals, lo, p):
        if len(vals) < 2 or not all(isinstance(v, Ptr) and not v.path for v in vals):
            return None
        pts = []
        try:
            for v in vals:
                c, fs, fes, s = ge_read(cx, st, v)
                if c != PRE or not all(cx.fe_within(st, f, b) for f, b in zip(fes, ge_bounds(PRE))):
                    return None
                q = ge_point(cx, st, c, fs)
                if q is None:
                    return None
                pts.append(q)
        except NoMatch:
            return None
        d = pts[1] - pts[0]
        if any(pts[0] + d.scale(i) != q for i, q in enumerate(pts)):
            return None
        v = ge_make(cx, st, PRE, pts[0] + d.scale(psub(p, pc(lo))))
        protect(cx, st, v)
        return v
    return hook


def mk_row(cx, st, pts):
    o = new_obj()
    st.heap[o] = Ar([ge_make(cx, st, PRE, p) for p in pts])
    n = len(pts)
    return Slice(o, (), kn.ZERO, ic(n), ic(n))


def shared_tables(cx, pt, what):
    """tables of a symbolic point allocated once in the base heap"""
    key = (what, pt.key())
    r = cx.tables.get(key)
    if r is None:
        st = State(cx.prog.base)
        r = cx.tables[key] = (mk_single if what == 'single' else mk_double)(cx, st, pt)
        cx.prog.base.update(st.heap)
    return r


def mk_single(cx, st, pt):
    rows = [mk_row(cx, st, [pt.scale((j + 1) * 256 ** i) for j in range(8)]) for i in range(32)]
    o = new_obj()
    st.heap[o] = Ar(rows)
    return Slice(o, (), kn.ZERO, ic(32), ic(32))


def mk_double(cx, st, pt):
    return mk_row(cx, st, [pt.scale(2 * j + 1) for j in range(8)])


_tabcache = {}


def match_row(cx, st, s, pts):
    if not isinstance(s, Slice) or st.iconst(s.len) != len(pts):
        raise NoMatch('table row')
    key = (s.obj, s.path, s.off.key(), tuple(p.key() for p in pts))
    hit = cx.tables.get(('row', key))
    if hit is not None and all(o not in st.heap for o in hit):
        return
    es = pieces_elems(cx.ex.slice_content(st, s))
    objs = {s.obj}
    for e, p in zip(es, pts):
        c, fs, fes, v = ge_read(cx, st, e)
        objs.add(e.obj)
        objs.update(v[cx.ge[n]].obj for n in 'XYZ')
        if c != PRE:
            raise NoMatch('table entry coordinates')
        for f, b in zip(fes, ge_bounds(PRE)):
            if not cx.fe_within(st, f, b):
                raise NoMatch('table entry bounds')
        q = ge_point(cx, st, c, fs)
        if q is None or q.simp(st) != p.simp(st):
            raise NoMatch('table entry %r is not %r' % (q, p))
    if all(o in st.base and o not in st.heap for o in objs):
        cx.tables[('row', key)] = objs


def match_single(cx, st, s, pt, rows=range(32)):
    if not isinstance(s, Slice) or st.iconst(s.len) != 32:
        raise NoMatch('single table')
    es = pieces_elems(cx.ex.slice_content(st, s))
    for i in rows:
        match_row(cx, st, es[i], [pt.scale((j + 1) * 256 ** i) for j in range(8)])


def match_double(cx, st, s, pt):
    match_row(cx, st, s, [pt.scale(2 * j + 1) for j in range(8)])


# ================================================================= result shapes
class Res:
    """make(cx, st) -> value; check(vc, st, value) records obligations"""


class RFE(Res):
    def __init__(self, f, bound=MULOUT, ptr=False):
        self.f, self.bound, self.ptr = f, bound, ptr

    def make(self, cx, st):
        v = cx.fe_make(st, self.f, self.bound)
        return cx.alloc(st, v) if self.ptr else v

    def check(self, vc, st, v):
        cx = vc.cx
        if self.ptr:
            vc.fresh(st, v)
            if not isinstance(v, Ptr):
                return vc.fail('result is nil')
            v = cx.ex.load(st, v)
        vc.feq('value', st, cx.fe_fp(st, v), self.f)
        for i, l in enumerate(cx.limbs(v)):
            lo, hi = st.b.ival(st.simp(l.p))
            lo, hi = max(lo, l.lo), min(hi, l.hi)
            b = self.bound[i]
            if not (-b <= lo and hi <= b):
                vc.le('bound of limb %d' % i, st, psub(l.p, pc(b)))
                vc.le('lower bound of limb %d' % i, st, psub(pc(-b), l.p))
            else:
                vc.ok('bound of limb %d' % i)


def refloor(st, p):
    """replace the floors whose argument stays between two multiples"""
    out = {}
    add = kn.ZERO
    for k, c in p.d.items():
        if len(k) == 1:
            a = K.atoms[k[0]]
            if a.kind == 'f':
                lo, hi = st.b.ival(a.arg)
                if lo != NEG and hi != POS and lo // a.m == hi // a.m:
                    add = padd(add, pc(c * (lo // a.m)))
                    continue
        out[k] = c
    return padd(Poly(out), add)


class RENC(Res):
    """pointer to an encoded element with n bytes and integer value V in [0,256^n).
    canon: (field value) V = can(value)"""
    def __init__(self, V=None, n=32, typ='EF', can=None, mod=None):
        self.V, self.n, self.typ, self.can, self.mod = V, n, typ, can, mod

    def value(self, st):
        if self.can is not None:
            return can(st.fsimp(self.can))
        if self.mod is not None:
            return pmod(st.simp(self.mod[0]), self.mod[1], st.b)
        return st.simp(self.V)

    def make(self, cx, st):
        V = self.value(st)
        raw = cx.bytes_make(st, models.le_bytes_top(st, V, self.n))
        return mk_enc(cx, st, raw, self.typ)

    def check(self, vc, st, v):
        cx = vc.cx
        vc.fresh(st, v)
        if not isinstance(v, Ptr):
            return vc.fail('result is nil')
        s = cx.ex.load(st, v)
        d = cx.ef if self.typ == 'EF' else cx.eg
        raw = s[d['Raw']]
        try:
            bs = cx.bytes_of(st, raw, self.n)
        except NoMatch:
            return vc.fail('result is not %d bytes long' % self.n)
        vc.fresh(st, raw)
        if self.typ == 'EF' and 'zero' in d:
            try:
                z = cx.bytes_of(st, s[d['zero']], self.n)
                if any(b.const() != 0 for b in z):
                    raise NoMatch('')
            except NoMatch:
                return vc.fail('zero representation of the result')
        S = refloor(st, st.simp(le_value(bs)))
        self.checkvalue(vc, st, S)

    def checkvalue(self, vc, st, S):
        if self.can is not None:
            f = self.can
            if S == can(st.fsimp(f)):
                return vc.ok('canonical value')
            vc.fint('value mod p', st, S, f)
            vc.le('value below p', st, psub(S, pc(P25519 - 1)))
            vc.le('value not negative', st, pscale(S, -1))
        elif self.mod is not None:
            V, m = self.mod
            V = st.simp(V)
            if S == pmod(V, m, st.b):
                return vc.ok('residue')
            dlt = psub(S, V)
            if any(c % m for c in dlt.d.values()):
                return vc.fail('value is not congruent modulo L: ' + kn.show(dlt))
            vc.ok('congruent')
            vc.le('value below modulus', st, psub(S, pc(m - 1)))
            vc.le('value not negative', st, pscale(S, -1))
        else:
            vc.ieq('value', st, S, self.V)


class RENCPT(Res):
    """canonical encoding of a point"""
    def __init__(self, pt, typ='EG'):
        self.pt, self.typ = pt, typ
        self.n = 32

    def value(self, st):
        return enc_value(st, self.pt)

    def make(self, cx, st):
        enc_nonzero(st, self.pt)
        raw = cx.bytes_make(st, models.le_bytes_top(st, self.value(st), 32))
        return mk_enc(cx, st, raw, 'EG')

    def check(self, vc, st, v):
        cx = vc.cx
        vc.fresh(st, v)
        if not isinstance(v, Ptr):
            return vc.fail('result is nil')
        s = cx.ex.load(st, v)
        raw = s[cx.eg['Raw']]
        try:
            bs = cx.bytes_of(st, raw, 32)
        except NoMatch:
            return vc.fail('result is not 32 bytes long')
        vc.fresh(st, raw)
        vc.ieq('encoding', st, st.simp(le_value(bs)), self.value(st))


def enc_value(st, pt):
    """y + 2^255 * (x mod 2)"""
    pt = pt.simp(st)
    x, y = coords(pt)
    X = can(x)
    V = padd(can(y), pscale(pmod(X, 2, st.b), 1 << 255))
    ENCODINGS.setdefault(V.key(), pt)
    return V


_zpt = []


def enc_nonzero(st, pt):
    """32 zero bytes encode a point outside the subgroup of B (checked numerically here), so no multiple of B"""
    if list(pt.d) != ['B']:
        return
    if not _zpt:
        i = pow(2, (P25519 - 1) // 4, P25519)
        q = (i if i % 2 == 0 else P25519 - i, 0)
        on = (-q[0] * q[0] + q[1] * q[1] - 1 - D25519 * q[0]**2 * q[1]**2) % P25519 == 0
        _zpt.append(on and points.aff_mul(L25519, q) != (0, 1))
    if _zpt[0]:
        st.assume(fnot(eq0(enc_value(st, pt))))


ENCODINGS = {}      # integer value of an encoding -> point


def decodable(V):
    """(formula, point) for the decoding of the 32 byte string with integer value V"""
    pt = ENCODINGS.get(V.key())
    if pt is not None:
        return TRUE, pt
    k = V.key()
    a = K.func('decodable', k, 0, 1)
    a.arg = V
    if k not in DECODED:
        DECODED[k] = points.sym('D%d' % len(DECODED))
    return eq0(psub(pa(a), pc(1))), DECODED[k]


DECODED = {}


class RGE(Res):
    """pointer to a group element representing an expression"""
    def __init__(self, c, expr, pt=None, z1=False, readonly=False):
        self.c, self.expr, self.readonly, self.z1 = c, expr, readonly, z1
        if pt is None:
            pt = expr if isinstance(expr, Pt) else expr[1] + expr[2]
        self.pt = pt

    def make(self, cx, st):
        v = ge_make(cx, st, self.c, self.pt, z1=self.z1)
        if self.readonly:
            protect(cx, st, v)
        return v

    def check(self, vc, st, v):
        cx = vc.cx
        if not isinstance(v, Ptr):
            return vc.fail('result is nil')
        if not self.readonly:
            vc.fresh(st, v)
        try:
            c, fs, fes, s = ge_read(cx, st, v)
        except NoMatch as e:
            return vc.fail('result: %s' % e)
        if c != self.c:
            return vc.fail('result has coordinate system %s' % COORD_NAMES[c])
        if self.z1:
            vc.feq('Z', st, fs[2], fp(1))
        pt = ge_point(cx, st, c, fs)
        if pt is not None and vc.points_equal(st, pt, self.pt):
            vc.ok('point')
        else:
            if isinstance(self.expr, tuple):
                points.register_sum(self.expr[1], self.expr[2])
            eqs, nzs = ge_satisfies(cx, st, c, fs, self.expr)
            for n, f in eqs:
                vc.feq('coordinate ' + n, st, f, fp(0), 'got %r' % pt)
            for n, f in nzs:
                vc.fnz('nonzero ' + n, st, f)
        for n, f, b in zip('XYZT', fes, ge_bounds(c)):
            vc.cond('bounds of %s' % n, cx.fe_within(st, f, b))


class RGEV(Res):
    """pointer to a P3 group element with the affine coordinates x, y (field values), Z = 1"""
    def __init__(self, x, y):
        self.x, self.y = x, y

    def make(self, cx, st):
        vals = [self.x, self.y, fp(1), self.x * self.y]
        ptrs = [cx.alloc(st, cx.fe_make(st, f, b)) for f, b in zip(vals, ge_bounds(P3))]
        return cx.alloc(st, ge_struct(cx, P3, ptrs))

    def check(self, vc, st, v):
        cx = vc.cx
        if not isinstance(v, Ptr):
            return vc.fail('result is nil')
        vc.fresh(st, v)
        c, fs, fes, s = ge_read(cx, st, v)
        vc.cond('P3 coordinates', c == P3)
        if c != P3:
            return
        for n, f, g in zip('XYZT', fs, [self.x, self.y, fp(1), self.x * self.y]):
            vc.feq('coordinate ' + n, st, f, g)
        d = fp(D25519)
        xx, yy = fs[0] * fs[0], fs[1] * fs[1]
        vc.feq('curve equation', st, yy - xx, fp(1) + d * xx * yy)
        for n, f, b in zip('XYZT', fes, ge_bounds(P3)):
            vc.cond('bounds of %s' % n, cx.fe_within(st, f, b))
        for n in ('precomputedForSingle', 'precomputedForDouble'):
            vc.cond('%s is nil' % n, s[cx.ge[n]].isnil())


class RERR(Res):
    """a non nil error"""
    def __init__(self, kind='error'):
        self.kind = kind

    def make(self, cx, st):
        return Iface('*errors.errorString', Opaque('error', (self.kind, K.fresh('err').name)))

    def check(self, vc, st, v):
        vc.cond('error returned', isinstance(v, Iface))


class RNIL(Res):
    def make(self, cx, st):
        return NIL

    def check(self, vc, st, v):
        vc.cond('nil', v is NIL or (isinstance(v, Slice) and v.isnil()))


class RBOOL(Res):
    def __init__(self, f):
        self.f = f

    def make(self, cx, st):
        return self.f

    def check(self, vc, st, v):
        vc.iff('result', st, v, self.f)


class RINT(Res):
    def __init__(self, p):
        self.p = p

    def make(self, cx, st):
        return st.mk(st.simp(self.p))

    def check(self, vc, st, v):
        vc.ieq('result', st, v.p, self.p)


class RBYTES(Res):
    """byte slice: integer value with n bytes"""
    def __init__(self, V, n, canon=None):
        self.V, self.n = V, n

    def make(self, cx, st):
        return cx.bytes_make(st, models.le_bytes_top(st, st.simp(self.V), self.n))

    def check(self, vc, st, v):
        try:
            bs = vc.cx.bytes_of(st, v, self.n)
        except NoMatch:
            return vc.fail('result is not %d bytes long' % self.n)
        vc.fresh(st, v)
        vc.ieq('value', st, st.simp(le_value(bs)), self.V)


class RBIG(Res):
    def __init__(self, p=None, f=None):
        self.p, self.f = p, f

    def make(self, cx, st):
        p = st.simp(self.p) if self.p is not None else can(st.fsimp(self.f))
        return models.newbig(st, st.mk(p))

    def check(self, vc, st, v):
        if not isinstance(v, Ptr):
            return vc.fail('result is nil')
        vc.fresh(st, v)
        b = vc.cx.ex.load(st, v)
        if self.p is not None:
            vc.ieq('value', st, b.v.p, self.p)
        else:
            S = st.simp(b.v.p)
            vc.fint('value mod p', st, S, self.f)
            lo, hi = st.b.ival(S)
            vc.cond('range', max(lo, b.v.lo) >= 0 and min(hi, b.v.hi) < P25519)


class RDIGITS(Res):
    """n signed digits, each 0 or odd with absolute value <= 15, whose radix 2 value is V"""
    def __init__(self, V, n=256):
        self.V, self.n = V, n

    def make(self, cx, st):
        rs = []
        s = kn.ZERO
        for i in range(self.n):
            r = K.fresh('dig', -15, 15)
            r.odd = K.fresh('half', -8, 7)
            rs.append(iatom(r))
            s = padd(s, pscale(pa(r), 1 << i))
        st.ghost['eqs'] = st.ghost.get('eqs', ()) + (psub(s, self.V),)
        o = new_obj()
        st.heap[o] = Ar(rs)
        return Slice(o, (), kn.ZERO, ic(self.n), ic(self.n))


class PANIC:
    pass


class Case:
    """cond: formula; results: list of result shapes or PANIC; effects(cx, st, args, params) changes
    the state at a call site; check(vc, st, args, params) checks the final state of the body"""
    def __init__(self, cond, results, effects=None, check=None):
        self.cond, self.results, self.effects, self.check = cond, results, effects, check


# ================================================================= verification context
class VC:
    def __init__(self, cx, func, prefix=''):
        self.cx = cx
        self.func = func
        self.obls = []
        self.prefix = prefix
        self.mark = 0
        self.trace = ()
        self.seen = {}

    def add(self, name, ok, backend='kernel', t=0.0, detail=''):
        n = self.prefix + name
        self.obls.append(Obl(self.func, n, ok, backend, t, '' if ok else detail, self.trace if not ok else ()))
        return ok

    def ok(self, name):
        return self.add(name, True)

    def fail(self, name, detail=''):
        return self.add(name, False, detail=detail or name)

    def cond(self, name, b, detail=''):
        return self.add(name, bool(b), detail=detail)

    def decide(self, st, f):
        t = time.time()
        n0 = SMT_STATS['calls']
        r = st.decide(f, 2)
        return r, ('z3' if SMT_STATS['calls'] > n0 else 'kernel'), time.time() - t

    def le(self, name, st, p):
        f = le0(st.simp(p))
        r, be, t = self.decide(st, f)
        return self.add(name, r is True, be, t, 'cannot show %s' % fshow(f))

    def form(self, name, st, f):
        r, be, t = self.decide(st, f)
        return self.add(name, r is True, be, t, 'cannot show %s' % fshow(f))

    def ieq(self, name, st, p, q):
        d = st.simp(psub(p, q))
        if not d.d:
            return self.ok(name)
        f = eq0(d)
        r, be, t = self.decide(st, f)
        return self.add(name, r is True, be, t, 'cannot show %s' % fshow(f))

    def feq(self, name, st, f, g, note=''):
        d = st.fsimp(f - g)
        t = time.time()
        if kn.fzero(d):
            return self.add(name, True, 'kernel', time.time() - t)
        r, be, t = self.decide(st, feq0(d))
        if r is not True:
            # a difference that is small multiple of integer terms
            p = sym_int(d)
            if p is not None:
                r, be, t = self.decide(st, eq0(p))
        return self.add(name, r is True, be, t, 'residue %r %s' % (d, note))

    def fint(self, name, st, S, f):
        return self.feq(name, st, finject(S), f)

    def fnz(self, name, st, f):
        f = kn.fnorm(st.fsimp(f))
        if kn.nonzero_known(f):
            return self.ok(name)
        r, be, t = self.decide(st, feq0(f))
        return self.add(name, r is False, be, t, '%r may vanish' % f)

    def iff(self, name, st, f, g):
        """formula equivalence"""
        s1, s2 = st.copy(), st.copy()
        ok = True
        be = 'kernel'
        t0 = time.time()
        n0 = SMT_STATS['calls']
        for s, val in ((s1, True), (s2, False)):
            d = s.decide(f, 2)
            if d is (not val):
                continue
            if d is None:
                if not s.assume(f if val else fnot(f)):
                    continue
            if s.decide(g, 2) is not val:
                ok = False
        if not ok and s1.decide(f, 2) == s1.decide(g, 2) is not None:
            pass
        if SMT_STATS['calls'] > n0:
            be = 'z3'
        return self.add(name, ok, be, time.time() - t0, 'cannot show %s iff %s' % (fshow(f), fshow(g)))

    def points_equal(self, st, p, q):
        p, q = p.simp(st), q.simp(st)
        if p == q:
            return True
        for s in set(p.d) | set(q.d):
            d = psub(p.d.get(s, kn.ZERO), q.d.get(s, kn.ZERO))
            if not d.d:
                continue
            if ghost_zero(st, d, s == 'B'):
                continue
            if st.decide(eq0(d)) is not True:
                return False
        return True

    def fresh(self, st, v):
        """returned memory was allocated by the function"""
        o = v.obj if isinstance(v, (Ptr, Slice)) else None
        if o is None:
            return True
        return self.cond('result memory is fresh', o >= self.mark, 'result aliases older memory')


def ghost_zero(st, d, modL=False):
    """d = 0 (modulo L) follows from the ghost equations of the path"""
    for g in st.ghost.get('eqs', ()):
        g = st.simp(g)
        ks = [k for k, c in g.d.items() if k and abs(c) == 1]
        if not ks or ks[0] not in d.d:
            continue
        d = psub(d, pscale(g, d.d[ks[0]] * g.d[ks[0]]))
        if modL:
            d = points.modLsym(d)
        if not d.d:
            return True
    return False


def sym_int(f):
    d = {}
    for k, c in f.d.items():
        if c > P25519 // 2:
            c -= P25519
        if abs(c) > 1 << 40:
            return None
        m = []
        for a, e in k:
            if e < 1 or e > 4 or (K.atoms[a].kind == 'u' and K.atoms[a].data[1] in kn.FIELD_ATOMS):
                return None
            m += [a] * e
        d[tuple(sorted(m))] = c
    return Poly(d)


def same_value(st, a, b):
    """structural equality of two heap values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, IV):
        return a.p == b.p or not st.simp(psub(a.p, b.p)).d
    if isinstance(a, (St, Ar)):
        return len(a) == len(b) and all(same_value(st, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr):
        return a == b
    if isinstance(a, Slice):
        return (a.obj, a.path) == (b.obj, b.path) and not st.simp(psub(a.off, b.off)).d and \
            not st.simp(psub(a.len.p, b.len.p)).d
    if isinstance(a, BI):
        return same_value(st, a.v, b.v)
    if isinstance(a, Rope):
        return pieces_key(st, a.ps) == pieces_key(st, b.ps)
    if isinstance(a, tuple):
        return a == b
    if isinstance(a, Str):
        return str_key(a) == str_key(b)
    if isinstance(a, Iface):
        return a.t == b.t and same_value(st, a.v, b.v)
    if isinstance(a, Fn):
        return a.name == b.name
    if isinstance(a, Opaque):
        return (a.name, a.data) == (b.name, b.data)
    return False


def lengths_of(ex, name):
    """lengths around the integer constants of the function, for a bounded check: those to be covered, and larger
    ones that are covered if that is quick"""
    r, big = set(), set()
    for b in ex.prog.funcs.get(name, {}).get('blocks', ()):
        for i in b['instrs']:
            for v in i.values():
                if isinstance(v, dict) and v.get('k') == 'const':
                    try:
                        c = int(v.get('v'))
                    except (TypeError, ValueError):
                        continue
                    r |= {c - 1, c, c + 1, c + 2, c // 8, c // 8 + 1}
                    if 520 < c <= 1 << 20:
                        big |= {c - 1, c, c + 1, 2 * c}
    return tuple(sorted(c for c in r if 100 < c <= 520))[:16], tuple(sorted(big))[:12]


LENGTHS = (0, 1, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 80, 96, 100)


class Contract:
    """args: list of shapes; post(st, *params) -> list of Case.
    variants: list of argument lists verified separately (default: the shapes' first choice)"""
    def __init__(self, name, args, post, props=(), modifies=None, overflow=True, variants=None,
                 pre=None, note='', clients=True, setup=None, effects=None, allow_alias=False,
                 facts=None, client_post=None, merging=False, trusted=None, looprule=False):
        self.name, self.args, self.post, self.props = name, args, post, tuple(props)
        self.modifies, self.overflow, self.note = modifies, overflow, note
        self.variants = variants
        self.pre = pre
        self.clients = clients
        self.setup = setup
        self.effects = effects
        self.facts = facts
        self.merging = merging
        self.looprule = looprule
        self.trusted = trusted
        self.client_post = client_post or post
        self.applied = 0

    # ---- call site
    def apply(self, ex, st, args, x):
        if not self.clients:
            return None
        cx = ex.cx
        try:
            if len(args) != len(self.args):
                raise NoMatch('arity')
            ps = [s.match(cx, st, a) for s, a in zip(self.args, args)]
            if self.pre is not None and not self.pre(st, *ps):
                raise NoMatch('precondition')
        except NoMatch as e:
            ex.nomatch.append((self.name, str(e)))
            return None
        self.applied += 1
        for case in self.client_post(st, *ps):
            d = st.decide(case.cond)
            if d is None:
                raise NeedFork(case.cond)
            if not d:
                continue
            if case.results is PANIC:
                raise GoPanic('panic in ' + self.name)
            if case.effects is not None:
                case.effects(cx, st, args, ps)
            return ret(st, *[r.make(cx, st) for r in case.results])
        raise Unsupported('no case of the contract of %s applies' % self.name)

    # ---- body
    def verify(self, ex):
        if self.trusted is not None:
            return self.trusted(ex, self)
        out = []
        for label, shapes in (self.variants or [('', self.args)]):
            out.extend(self.verify_lengths(ex, label, shapes))
        return out

    def verify_lengths(self, ex, label, shapes):
        """a variant about byte strings of every length that is out of reach is verified for some lengths"""
        cx = ex.cx
        old, cx.every, cx.length = ex.deadline, False, None
        try:
            r = self.verify1(ex, label, shapes)
            why = [o.detail for o in r if not o.ok and o.name.endswith('verified')]
            if not (cx.every and why):
                return r
            out = []
            few, big = lengths_of(ex, self.name)
            for n in LENGTHS + few + big:
                ex.deadline = old
                if n in big:
                    # as far as it goes
                    t = time.time() + 8
                    ex.deadline = t if old is None else min(t, old)
                cx.length = n
                r = self.verify1(ex, '%s: length %d' % (label, n) if label else 'length %d' % n, shapes)
                if n in big and any(not o.ok and o.name.endswith('verified') for o in r):
                    break
                for o in r:
                    if o.ok:
                        o.backend = 'bounded execution'
                        o.detail = 'no proof for every length: %s' % why[0]
                    out.append(o)
            return out
        finally:
            ex.deadline, cx.length = old, None

    def verify1(self, ex, label, shapes):
        cx = ex.cx
        vc = VC(cx, self.name, (label + ': ') if label else '')
        st = State(ex.prog.base)
        ex.stats.overflow = []
        try:
            made = [s.make(cx, st) for s in shapes]
            args = [m[0] for m in made]
            ps = [m[1] for m in made]
            if self.setup:
                self.setup(cx, st, args, ps)
            vc.mark = obj_mark()
            before = dict(st.heap)
            vc.before = lambda o: before.get(o, st.base.get(o))
            ex.cur = self.name
            ex.overflow_ok = not self.overflow
            ex.merging = self.merging
            ex.looprule = self.looprule or bool(getattr(cx, 'every', None)) and not self.merging
            outs = ex.run(self.name, args, st)
            if not outs:
                vc.fail('no outcome')
            work = list(outs)
            splits = 0
            while work:
                o = work.pop()
                s = o.st
                vc.trace = s.trace
                cases = self.post(s, *ps)
                todo = None
                for case in cases:
                    d = s.decide(case.cond, 2)
                    if d is None:
                        todo = case
                        break
                    if d:
                        todo = case
                        break
                if todo is None:
                    vc.fail('no case applies')
                    continue
                if d is None:
                    # split on an undecided atom of the condition
                    splits += 1
                    if splits > 400:
                        raise Unsupported('no end of case distinctions for %s' % fshow(todo.cond)[:300])
                    c = undecided(s, todo.cond)
                    for f in (fnot(c), c):
                        s2 = s.copy()
                        if s2.assume(f):
                            work.append(Outcome(s2, o.kind, o.val))
                    continue
                if o.kind == 'panic':
                    vc.cond('does not panic', todo.results is PANIC, 'panic: %r' % (o.val,))
                    continue
                if todo.results is PANIC:
                    vc.fail('must panic')
                    continue
                n0 = len(vc.obls)
                vc.ok('returns')
                try:
                    for r, v in zip(todo.results, o.val):
                        r.check(vc, s, v)
                    if todo.check is not None:
                        try:
                            todo.check(vc, s, args, ps)
                        except NoMatch as e:
                            vc.fail('final state', str(e))
                    self.check_frame(vc, s, before, cx, args, ps)
                except (NeedEnum, NeedFork) as e:
                    # the outcome is checked case by case
                    splits += 1
                    if splits > 400:
                        raise Unsupported('no end of case distinctions in the check of an outcome')
                    del vc.obls[n0:]
                    for f in ([eq0(psub(e.p, pc(i))) for i in range(e.lo, e.hi + 1)] if isinstance(e, NeedEnum)
                              else [fnot(e.f), e.f]):
                        s2 = s.copy()
                        if s2.assume(f):
                            work.append(Outcome(s2, o.kind, o.val))
            if self.overflow:
                vc.cond('no 64-bit overflow', not ex.stats.overflow,
                        '; '.join('%s' % (o,) for o in ex.stats.overflow[:3]))
        except Unsupported as e:
            vc.fail('verified', 'not within reach of the verifier: %s' % e)
        except NoMatch as e:
            vc.fail('verified', 'result of unexpected form: %s' % e)
        finally:
            ex.cur = None
            ex.overflow_ok = False
            ex.merging = False
            ex.looprule = False
        return vc.obls

    def check_frame(self, vc, st, before, cx, args, ps):
        allowed = self.modifies(cx, args, ps) if self.modifies else set()
        ok = True
        det = ''
        for o, v in st.heap.items():
            if o >= vc.mark or o in allowed:
                continue
            old = before.get(o)
            if old is None:
                old = st.base.get(o)
            if old is None or not same_value(st, old, v):
                ok = False
                det = 'object %d is modified' % o
        vc.cond('frame: nothing else is modified', ok, det)


def undecided(s, f):
    """the first undecided atom of f in the state s (f itself if there is none)"""
    def go(f):
        if f[0] == 'not':
            return go(f[1])
        if f[0] in ('and', 'or'):
            return go(f[1]) or go(f[2])
        return f if s.decide(f, 2) is None else None
    return go(f) or f


def proved_digits(n, hi, budget, values):
    """contract of a recoding function, for every scalar up to hi: the result has n digits, each zero or
    odd with absolute value at most 15, whose radix 2 value is the scalar.  The paths that meet at a loop
    header are joined under the invariant of merge.Template.  When the function is out of reach of this
    proof the bounded check on the listed scalars stands in."""
    def go(ex, ct):
        import merge
        cx = ex.cx
        vc = VC(cx, ct.name)
        b = bounded_slide(values)(ex, ct)
        if not all(o.ok for o in b):
            return b
        st = State(ex.prog.base)
        args, ps = [], []
        for s in ct.args:
            a, p = s.make(cx, st)
            args.append(a)
            ps.append(p)
        V = ps[-1]
        vc.mark = obj_mark()
        before = dict(st.heap)
        t = merge.Template(V, hi, n, st.facts, dict(st.env), st.b.copy())
        old = ex.deadline
        end = time.time() + (budget if ex.tier == 'quick' else 5 * budget)
        ex.deadline = min(old, end) if old else end
        ex.stats.overflow = []
        ex.overflow_ok = True
        ex.merging, ex.template, ex.cur = True, t, ct.name
        try:
            outs = ex.run(ct.name, args, st)
            outs = [o for o in outs if o.kind == 'panic' or t.keep(o.st, vc.mark)]
            if not outs:
                vc.fail('no outcome')
            for o in outs:
                s = o.st
                vc.trace = s.trace
                if o.kind == 'panic':
                    vc.fail('does not panic', 'panic: %r' % (o.val,))
                    continue
                v = o.val[0]
                es = pieces_elems(ex.slice_content(s, v)) if isinstance(v, Slice) and not v.isnil() else []
                if not vc.cond('number of digits', len(es) == n):
                    continue
                d = t.delta(s, es)
                vc.cond('radix 2 value is the scalar', d == 0, 'the digits differ from the scalar by %s' % d)
                for j, e in enumerate(es):
                    p = s.simp(e.p)
                    l, h = s.b.ival(p)
                    vc.cond('digit %d: at most 15' % j, max(l, e.lo) >= -15 and min(h, e.hi) <= 15)
                    vc.cond('digit %d: zero or odd' % j, merge.zero_or_odd(p))
                ct.check_frame(vc, s, before, cx, args, ps)
        except merge.Invariant as e:
            vc.trace = e.trace
            vc.fail('loop invariant: the digits add up to the scalar', str(e))
        except (Unsupported, NoMatch) as e:
            for o in b:
                o.detail = 'bounded, no proof: %s' % e
            return b
        finally:
            ex.deadline = old
            ex.overflow_ok = ex.merging = False
            ex.template = ex.cur = None
        return vc.obls
    return go


def bounded_slide(values):
    """stand-in for the proof of a recoding function: it is executed on the listed scalars"""
    def go(ex, ct):
        cx = ex.cx
        vc = VC(cx, ct.name)
        for V in values:
            st = State(ex.prog.base)
            bs = [ic(V >> (8 * i) & 255) for i in range(32)]
            vc.mark = obj_mark()
            ex.use_contracts = False
            try:
                outs = ex.run(ct.name, [NIL, mk_enc(cx, st, cx.bytes_make(st, bs), 'EF')], st)
            finally:
                ex.use_contracts = True
            ok = len(outs) == 1 and outs[0].kind == 'ret'
            if ok:
                es = pieces_elems(ex.slice_content(outs[0].st, outs[0].val[0]))
                ds = [e.const() for e in es]
                ok = len(ds) == 256 and sum(d << i for i, d in enumerate(ds)) == V and \
                    all(d == 0 or (d % 2 and abs(d) <= 15) for d in ds)
            vc.add('digits of %x' % V, ok, 'bounded execution', 0.0, 'wrong digits for the scalar %d' % V)
            vc.obls[-1].detail = vc.obls[-1].detail or 'no proof was attempted'
        return vc.obls
    return go
