"""Contracts of the big-integer reference helpers (math.go)."""
import kernel as kn
from kernel import (K, Poly, FP, pc, pa, padd, psub, pscale, pmul, fdiv, pmod, NEG, POS,
                    P25519, L25519, D25519, fp, finject, can)
from state import *
from exec import *
from spec import *
import models, points
from api import BYTES, BIGV, BytesParam
from models import le_value

EXPO = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230]
U256 = 1 << 256


class MATHUTILS(Shape):
    """the package variable MathUtils, with the value that package initialisation gives it"""
    def make(self, cx, st):
        return Ptr(cx.ex.gobj(cx.prog.pkg + '.MathUtils')), None

    def match(self, cx, st, v):
        if not isinstance(v, Ptr) or v.path or v.obj != cx.ex.gobj(cx.prog.pkg + '.MathUtils'):
            raise NoMatch('not MathUtils')
        if v.obj in st.heap and not same_value(st, st.heap[v.obj], st.base.get(v.obj)):
            raise NoMatch('MathUtils was changed')
        return None


class BIGP(BIGV):
    """pointer to a big.Int in the range"""
    def match(self, cx, st, v):
        if not isinstance(v, Ptr):
            raise NoMatch('not a pointer')
        b = cx.ex.load(st, v)
        if not isinstance(b, BI):
            raise NoMatch('not a big.Int')
        p = st.simp(b.v.p)
        lo, hi = st.b.ival(p)
        if (self.lo is not None and max(lo, b.v.lo) < self.lo) or (self.hi is not None and min(hi, b.v.hi) > self.hi):
            raise NoMatch('range of a big.Int')
        return p


class LIMBS(Shape):
    """ten limbs of any value"""
    def make(self, cx, st):
        vs = [iatom(K.var('t[%d]' % i, -(1 << 63), (1 << 63) - 1)) for i in range(10)]
        p = kn.ZERO
        for v, e in zip(vs, EXPO):
            p = padd(p, pscale(v.p, 1 << e))
        return Ar(vs), p

    def match(self, cx, st, v):
        if not isinstance(v, Ar) or len(v) != 10:
            raise NoMatch('limbs')
        p = kn.ZERO
        for x, e in zip(v, EXPO):
            p = padd(p, pscale(st.simp(x.p), 1 << e))
        return p


class GEANY(GEP):
    """element in any of the listed coordinate systems"""


def build(cx, candidate):
    P = cx.P
    out = []
    M = '(*%smathUtils).'
    mu = MATHUTILS()

    def c(name, args, post, **kw):
        kw.setdefault('overflow', False)
        out.append(Contract((M + name) % P, [mu] + args, post,
                            **dict(kw, **({'variants': [(l, [mu] + a) for l, a in kw['variants']]} if 'variants' in kw else {}))))
    enc = lambda n='a', k=32: ENCF(n, k, zero=False)
    one = lambda *r: [Case(TRUE, list(r))]
    PAN = [Case(TRUE, PANIC)]

    # --- conversions
    def valof(b):
        return b.V if isinstance(b, BytesParam) else b

    def le_of(st, b):
        return b.V if b.V is not None else pa(K.func('le', pieces_key(st, b.ps), 0, None))
    c('BytesToBigInteger', [BYTES('b', 32)], lambda st, r, b: one(RBIG(le_of(st, b))), clients=False, looprule=True,
      variants=[('every length', [BYTES('b')])] + [('%s bytes' % n, [BYTES('b', n)]) for n in (0, 1, 32, 33, 64, 'nil')])
    c('EncodedFieldToBigInteger', [enc()], lambda st, r, V: one(RBIG(V)), clients=False,
      variants=[('32 bytes', [enc()]), ('64 bytes', [enc('a', 64)])])
    c('FieldToBigInteger', [FEV('f', ENCIN, ptr=True)], lambda st, r, f: one(RBIG(f=f)))
    c('IntsToBigInteger', [LIMBS()], lambda st, r, p: one(RBIG(p)), clients=False)
    big = lambda lo=0, hi=U256 - 1, n='b': BIGP(n, lo, hi)
    small, large = big(), big(U256, None)
    ranges = [('below 2^256', [small]), ('from 2^256', [large])]

    def limit(res):
        def post(st, r, b):
            return [Case(le0(psub(pc(U256), b)), PANIC), Case(TRUE, res(st, b))]
        return post
    c('ToByteArray', [small], limit(lambda st, b: [RBYTES(b, 32)]), variants=ranges)
    c('ToEncodedFieldElement', [small], limit(lambda st, b: [RENC(b)]), variants=ranges)
    c('toEncodedFieldElement', [small], limit(lambda st, b: [RENC(b), RNIL()]), variants=ranges)
    c('ToFieldElement', [small], limit(lambda st, b: [RFE(kn.fimg(pmod(b, 1 << 255, st.b)), FEB, ptr=True)]),
      variants=ranges)
    # --- modulo the group order
    c('ReduceModGroupOrder', [enc()], lambda st, r, V: one(RENC(mod=(V, L25519))), clients=False,
      variants=[('32 bytes', [enc()]), ('64 bytes', [enc('a', 64)])])
    c('multiplyAndAddModGroupOrder', [enc('a'), enc('b'), enc('c')],
      lambda st, r, a, b, d: one(RENC(mod=(padd(pmul(a, b), d), L25519))), clients=False)

    # --- group
    g = lambda n, *cs, **k: GEP(n, cs, **k)
    S = points.sym

    def addpost(st, r, p, q):
        if p.c in (P2, P3) and q.c in (P2, P3):
            return one(RGE(P3, ('add', p.pt, q.pt), z1=True))
        return PAN
    vs = [('%s, %s' % (COORD_NAMES[i], COORD_NAMES[j]), [g('P', i), g('Q', j)]) for i in range(6) for j in range(6)]
    vs += [('same point', [g('P', P3), g('Q', P3, pt=S('P'))]), ('opposite points', [g('P', P3), g('Q', P3, pt=-S('P'))]),
           ('neutral left', [g('P', P3, pt=points.O), g('Q', P3)]), ('neutral right', [g('P', P3), g('Q', P3, pt=points.O)])]
    # the denominators of the addition law never vanish (edwards_complete)
    c('AddGroupElements', [g('P', P2, P3), g('Q', P2, P3)], addpost, variants=vs,
      setup=lambda cx_, st, args, ps: points.register_sum(ps[1].pt, ps[2].pt))
    c('DoubleGroupElement', [g('P', P2, P3)], lambda st, r, p: addpost(st, r, p, p),
      variants=[(COORD_NAMES[k], [g('P', k)]) for k in range(6)])
    c('NegateGroupElement', [g('P', P3)], lambda st, r, p: one(RGE(P3, -p.pt)) if p.c == P3 else PAN, clients=False,
      variants=[(COORD_NAMES[k], [g('P', k)]) for k in range(6)])

    def reppost(st, r, p, k):
        if 0 <= k < 6:
            return one(RGE(k, p.pt, z1=k in (AFFINE, P2, P3, P1P1, CACHED)), RNIL())
        return one(RNIL(), RERR())
    c('ToRepresentation', [g('P', *range(6)), CONST(P3)], reppost, clients=False,
      variants=[('%s to %s' % (COORD_NAMES[i], COORD_NAMES[j] if 0 <= j < 6 else j), [g('P', i), CONST(j)])
                for i in range(6) for j in list(range(7))])
    c('ScalarMultiplyGroupElement', [g('P', P3), FEV('f', ENCIN)],
      lambda st, r, p, f: one(RGE(P3, p.pt.scale(can(st.fsimp(f))), z1=True)), merging=True,
      variants=[(COORD_NAMES[k], [g('P', k), FEV('f', ENCIN)]) for k in (P2, P3)])
    c('doubleScalarMultiplyGroupElements', [g('P', P3), FEV('f', ENCIN), g('Q', P3), FEV('h', ENCIN)],
      lambda st, r, p, f, q, h: one(RGE(P3, p.pt.scale(can(st.fsimp(f))) - q.pt.scale(can(st.fsimp(h))), z1=True)),
      clients=False)

    # --- decoding
    def affx(st, r, y, neg):
        V = padd(y, pc((1 << 255) if neg else 0))
        return [Case(c_, [RBIG(f=x), RNIL()]) for c_, x, y_ in candidate(st, V, True)] + [Case(TRUE, [RNIL(), RERR()])]
    yv = BIGP('y', 0, (1 << 255) - 1)
    c('GetAffineXFromAffineY', [yv, BOOL(False)], affx, clients=False,
      variants=[('positive', [yv, BOOL(False)]), ('negative', [yv, BOOL(True)])])
    c('ToGroupElement', [BYTES('W', 32)], lambda st, r, b:
      [Case(c_, [RGEV(x, y), RNIL()]) for c_, x, y in candidate(st, valof(b), True)] + [Case(TRUE, [RNIL(), RERR()])],
      clients=False)
    return {ct.name: ct for ct in out}
