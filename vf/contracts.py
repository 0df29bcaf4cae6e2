"""The contracts of the functions of the package."""
import kernel as kn
from kernel import (K, Poly, FP, pc, pa, padd, psub, pscale, pmul, fdiv, pmod, NEG, POS,
                    P25519, L25519, D25519, SQRTM1, fp, finject, can)
from state import *
from spec import *
import points
from points import Pt

E252 = 2**252 - 3
FEN = '(%sEd25519FieldElement).'
FEP = '(*%sEd25519FieldElement).'
EFP = '(*%sEd25519EncodedFieldElement).'
EGP = '(*%sEd25519EncodedGroupElement).'
GEP_ = '(*%sEd25519GroupElement).'
GEN = '(%sEd25519GroupElement).'

REGISTRY = {}


def slide_values():
    import hashlib
    m = (1 << 253) - 1
    out = [0, 1, m, m - 1, L25519 - 1, 1 << 252, int('5' * 63, 16), int('2' * 63, 16), int('0f' * 31, 16),
           int('1f' * 31, 16) & m, int('3f' * 31, 16), int('7f' * 31, 16), (1 << 128) - 1, ((1 << 120) - 1) << 130]
    for i in range(10):
        out.append(int.from_bytes(hashlib.sha256(b'%d' % i).digest(), 'little') & m)
    return out


SLIDE_VALUES = slide_values()


def one(*results, **kw):
    return [Case(TRUE, list(results), **kw)]


def sqrt_value(u, v):
    return kn.fpow(u, 1 + E252) * kn.fpow(v, 3 + 7 * E252)


def field_contracts(P):
    out = []

    def c(name, args, post, **kw):
        out.append(Contract(name % P, args, post, **kw))
    fe = lambda n='f', b=MULIN, **k: FEV(n, b, **k)
    sm = bnd(220)
    c(FEN + 'add', [fe('f', FEB), fe('g', FEB)], lambda st, f, g: one(RFE(f + g, ADDOUT)), clients=False)
    c(FEN + 'subtract', [fe('f', FEB), fe('g', FEB)], lambda st, f, g: one(RFE(f - g, ADDOUT)), clients=False)
    c(FEN + 'negate', [fe('f', FEB)], lambda st, f: one(RFE(-f, FEB)), clients=False)
    c(FEN + 'multiply', [fe('f'), fe('g')], lambda st, f, g: one(RFE(f * g, MULOUT)))
    c(FEN + 'square', [fe('f')], lambda st, f: one(RFE(f * f, MULOUT)))
    c(FEN + 'squareAndDouble', [fe('f')], lambda st, f: one(RFE(fp(2) * f * f, MULOUT)))
    c(FEN + 'squareAndOptionalDouble', [fe('f'), BOOL(False)],
      lambda st, f, b: one(RFE(f * f * fp(2 if b else 1), MULOUT)),
      variants=[('dbl=false', [fe('f'), BOOL(False)]), ('dbl=true', [fe('f'), BOOL(True)])], clients=False)
    c(FEN + 'pow2to9', [fe('f')], lambda st, f: one(RFE(kn.fpow(f, 9), MULOUT)), clients=False)
    c(FEN + 'pow2to252sub4', [fe('f')], lambda st, f: one(RFE(kn.fpow(f, 2**252 - 4), MULOUT)))
    c(FEN + 'invert', [fe('f')], lambda st, f: one(RFE(kn.fpow(f, P25519 - 2), MULOUT)))
    c('%sEd25519FieldElementSqrt', [fe('u'), fe('v')], lambda st, u, v: one(RFE(sqrt_value(u, v), MULOUT)))
    c(FEN + 'Encode', [fe('f', ENCIN)], lambda st, f: one(RENC(can=f)))
    c(FEN + 'IsNonZero', [fe('f', ENCIN)], lambda st, f: one(RBOOL(fnot(feq0(f)))), clients=False)
    c(FEN + 'IsNegative', [fe('f', ENCIN)],
      lambda st, f: one(RBOOL(fnot(eq0(pmod(can(st.fsimp(f)), 2, st.b))))), clients=False)
    c(FEP + 'Equals', [fe('f', ENCIN, ptr=True), fe('g', ENCIN, ptr=True)],
      lambda st, f, g: one(RBOOL(feq0(f - g))), clients=False)
    c(EFP + 'Decode', [ENCF('a', 32, zero=False)],
      lambda st, V: one(RFE(finject(pmod(V, 1 << 255, st.b)), FEB, ptr=True)),
      client_post=lambda st, V: one(RFE(kn.fimg(pmod(V, 1 << 255, st.b)), FEB, ptr=True)))
    c(EFP + 'IsNegative', [ENCF('a', 32, zero=False)],
      lambda st, V: one(RBOOL(fnot(eq0(pmod(V, 2, st.b))))), clients=False)
    c(EFP + 'IsNonZero', [ENCF('a', 32)], lambda st, V: one(RBOOL(fnot(eq0(V)))), clients=False)
    c(EFP + 'Equals', [ENCF('a', 32, zero=False), ENCF('b', 32, zero=False)],
      lambda st, V, W: one(RBOOL(eq0(psub(V, W)))), clients=False)
    c(EFP + 'modQ', [ENCF('a', 64, zero=False)], lambda st, V: one(RENC(mod=(V, L25519))))
    c(EFP + 'multiplyAndAddModQ', [ENCF('a', 32, zero=False), ENCF('b', 32, zero=False), ENCF('c', 32, zero=False)],
      lambda st, a, b, d: one(RENC(mod=(padd(pmul(a, b), d), L25519))))
    return out


def add_(p, q):
    return ('add', p, q)


def group_contracts(cx):
    P = cx.P
    out = []

    def c(name, args, post, **kw):
        kw.setdefault('overflow', False)
        out.append(Contract(name % P, args, post, **kw))

    def panics(name, vs):
        """argument combinations that must be refused with a panic"""
        c(name, vs[0][1], lambda st, *ps: [Case(TRUE, PANIC)], variants=vs, clients=False)

    def gep(n, *cs, **k):
        return GEP(n, cs, **k)
    # --- doubling
    c(GEP_ + 'dbl', [gep('P', P2, P3)], lambda st, p: one(RGE(P1P1, add_(p.pt, p.pt))) if p.c in (P2, P3) else
      [Case(TRUE, PANIC)],
      variants=[('from %s' % COORD_NAMES[k], [gep('P', k)]) for k in range(6)])
    ops = [('add', CACHED, 1, False, False), ('subtract', CACHED, -1, False, False),
           ('precomputedAdd', PRE, 1, True, False), ('precomputedSubtract', PRE, -1, False, True)]
    for name, cs, sg, err, val in ops:
        def post(st, p, q, cs=cs, sg=sg, err=err):
            good = p.c == P3 and q.c == cs
            if good:
                r = [RGE(P1P1, add_(p.pt, q.pt if sg > 0 else -q.pt))]
                return one(*(r + [RNIL()] if err else r))
            return one(RNIL(), RERR()) if err else [Case(TRUE, PANIC)]
        vs = [('P3, %s' % COORD_NAMES[cs], [gep('P', P3, val=val), gep('Q', cs)]),
              ('same point', [gep('P', P3, val=val, pt=points.sym('P')), gep('Q', cs, pt=points.sym('P'))]),
              ('opposite points', [gep('P', P3, val=val), gep('Q', cs, pt=-points.sym('P'))]),
              ('neutral left', [gep('P', P3, val=val, pt=points.O), gep('Q', cs)]),
              ('neutral right', [gep('P', P3, val=val), gep('Q', cs, pt=points.O)])]
        for k in range(6):
            if k != P3:
                vs.append(('left operand %s' % COORD_NAMES[k], [gep('P', k, val=val), gep('Q', cs)]))
            if k != cs:
                vs.append(('right operand %s' % COORD_NAMES[k], [gep('P', P3, val=val), gep('Q', k)]))
        c((GEN if val else GEP_) + name, [gep('P', P3, val=val), gep('Q', cs)], post, variants=vs)
    c(GEP_ + 'negate', [gep('P', P3)], lambda st, p: one(RGE(P3, -p.pt), RNIL()) if p.c == P3 else one(RNIL(), RERR()),
      variants=[(COORD_NAMES[k], [gep('P', k)]) for k in range(6)])
    # --- conversions
    OK = {(P2, P2), (P3, P2), (P3, P3), (P3, CACHED), (P1P1, P2), (P1P1, P3), (P1P1, P1P1), (PRE, PRE),
          (CACHED, CACHED)}

    def conv(st, p, k):
        if (p.c, k) in OK:
            return one(RGE(k, p.pt))
        return [Case(TRUE, PANIC)]
    c(GEP_ + 'toCoordinateSystem', [gep('P', P3), CONST(P3)], conv, clients=False,
      variants=[('%s to %s' % (COORD_NAMES[i], COORD_NAMES[j] if j < 6 else j), [gep('P', i), CONST(j)])
                for i in range(6) for j in range(7)])
    for n, k in (('toP2', P2), ('toP3', P3), ('toCached', CACHED)):
        c(GEP_ + n, [gep('P', P3)], lambda st, p, k=k: conv(st, p, k), clients=False,
          variants=[('from %s' % COORD_NAMES[i], [gep('P', i)]) for i in range(6)])
    # --- constants
    c('(*%sed25519Group).ZERO_P2', [ANY()], lambda st, r: one(RGE(P2, points.O)), clients=False)
    c('(*%sed25519Group).ZERO_P3', [ANY()], lambda st, r: one(RGE(P3, points.O)), clients=False)
    c('(*%sed25519Group).ZERO_PRECOMPUTED', [ANY()], lambda st, r: one(RGE(PRE, points.O)), clients=False)
    # --- equality
    def eqpost(st, p, q):
        if p.c == AFFINE:
            return [Case(TRUE, PANIC)]
        if (q.c, p.c) in OK:
            (x1, y1), (x2, y2) = points.coords(p.pt), points.coords(q.pt)
            return one(RBOOL(fand(feq0(x1 - x2), feq0(y1 - y2))))
        return one(RBOOL(FALSE))
    c(GEP_ + 'Equals', [gep('P', P3), gep('Q', P3)], eqpost, clients=False,
      variants=[('%s, %s' % (COORD_NAMES[i], COORD_NAMES[j]), [gep('P', i), gep('Q', j)])
                for i in range(1, 6) for j in range(6)])
    c(GEP_ + 'SatisfiesCurveEquation', [gep('P', P3)], lambda st, p: one(RBOOL(TRUE)), clients=False,
      variants=[(COORD_NAMES[k], [gep('P', k)]) for k in (P2, P3, P1P1)])
    # --- encoding
    c(GEP_ + 'Encode', [gep('P', P2, P3, P1P1)], lambda st, p: one(RENCPT(p.pt), RNIL()),
      variants=[(COORD_NAMES[k], [gep('P', k)]) for k in (P2, P3, P1P1)])
    # --- decompression
    def candidate(st, V, body):
        """cases of the decoder for a byte string of integer value V"""
        y = kn.fimg(pmod(V, 1 << 255, st.b))
        u = y * y - fp(1)
        v = fp(D25519) * y * y + fp(1)
        b = sqrt_value(u, v)
        good = feq0(v * b * b - u)
        imag = feq0(v * b * b + u)
        sign = fdiv(V, 1 << 255, st.b)
        out = []
        for cond, x0 in ((good, b), (fand(fnot(good), imag), fp(SQRTM1) * b)):
            par = eq0(psub(pmod(can(st.fsimp(x0)), 2, st.b), sign))
            out.append((fand(cond, par), x0, y))
            out.append((fand(cond, fnot(par)), -x0, y))
        return out

    def decode_body(st, V):
        r = [Case(c_, [RGEV(x, y), RNIL()]) for c_, x, y in candidate(st, V, True)]
        return r + [Case(TRUE, [RNIL(), RERR()])]

    def decode_client(st, V):
        f, pt = decodable(V)
        return [Case(f, [RGE(P3, pt, z1=True), RNIL()]), Case(TRUE, [RNIL(), RERR()])]
    c(EGP + 'Decode', [ENCF('W', 32, typ='EG')], decode_body, client_post=decode_client)
    c(EGP + 'GetAffineX', [ENCF('W', 32, typ='EG')],
      lambda st, V: [Case(c_, [RFE(x, FEB, ptr=True), RNIL()]) for c_, x, y in candidate(st, V, True)] +
      [Case(TRUE, [RNIL(), RERR()])], clients=False)
    c(EGP + 'GetAffineY', [ENCF('W', 32, typ='EG')],
      lambda st, V: one(RFE(kn.fimg(pmod(V, 1 << 255, st.b)), FEB, ptr=True), RNIL()), clients=False)
    # --- tables
    def only_field(vc, st, args, f):
        """nothing but field f of the receiver differs"""
        old = vc.before(args[0].obj)
        new = vc.cx.ex.load(st, args[0])
        for n, i in vc.cx.ge.items():
            if n != f:
                vc.cond('%s of the receiver is kept' % n, same_value(st, old[i], new[i]))
        return old[vc.cx.ge[f]], new[vc.cx.ge[f]]

    def precompute(field, mk, match):
        def post(st, p):
            def eff(cx, st, args, ps):
                o = args[0].obj
                v = list(cx.ex.load(st, args[0]))
                if cx.ex.slen(v[cx.ge[field]]).const() != 0:
                    return
                v[cx.ge[field]] = mk(cx, st, p.pt)
                st.store(args[0], St(v))

            def chk(vc, st, args, ps):
                old, new = only_field(vc, st, args, field)
                if st.iconst(old.len) == 0:
                    match(vc.cx, st, new, p.pt)
                    vc.ok('table entries')
                    vc.fresh(st, new)
                else:
                    vc.cond('existing table is kept', same_value(st, old, new))
            return [Case(TRUE, [], effects=eff, check=chk)]
        return post

    def no_table(field):
        def pre(st, p):
            s = cx.ex.load(st, p.val) if isinstance(p.val, Ptr) else p.val
            t = s[cx.ge[field]]
            return isinstance(t, Slice) and t.isnil()
        return pre
    recv = lambda cx_, args, ps: {args[0].obj}
    c(GEP_ + 'PrecomputeForScalarMultiplication', [gep('P', P3)],
      precompute('precomputedForSingle', mk_single, match_single), modifies=recv,
      pre=no_table('precomputedForSingle'),
      variants=[('no table', [gep('P', P3)]), ('with table', [gep('P', P3, tables='single')])])
    c(GEP_ + 'PrecomputeForDoubleScalarMultiplication', [gep('P', P3)],
      precompute('precomputedForDouble', mk_double, match_double), modifies=recv,
      pre=no_table('precomputedForDouble'),
      variants=[('no table', [gep('P', P3)]), ('with table', [gep('P', P3, tables='double')])])

    def select_pre(st, p, pos, b):
        pos = pos if isinstance(pos, int) else pos.const()
        if pos is None or not 0 <= pos < 32:
            return False
        s = cx.ex.load(st, p.val)
        t = s[cx.ge['precomputedForSingle']]
        if not isinstance(t, Slice) or st.iconst(t.len) != 32:
            raise NoMatch('single table')
        es = pieces_elems(cx.ex.slice_content(st, t))
        match_row(cx, st, es[pos], [p.pt.scale((j + 1) * 256 ** pos) for j in range(8)])
        return True

    def select_post(st, p, pos, b):
        pos = pos if isinstance(pos, int) else pos.const()
        return one(RGE(PRE, p.pt.scale(b).scale(256 ** pos), readonly=True), RNIL())
    c(GEP_ + 'Select', [gep('P', P3, tables='single', row=True), INT('pos', 0, 31), INT('b', -8, 8)], select_post,
      pre=select_pre,
      variants=[('pos=%d b=%d' % (i, b), [gep('P', P3, tables='single'), CONST(i), CONST(b)])
                for i in range(32) for b in range(-8, 9)])
    c(GEP_ + 'scalarMultiply', [gep('P', P3, tables='single'), ENCF('a', 32, hi=2**255 - 1, zero=False)],
      lambda st, p, a: one(RGE(P3, p.pt.scale(a)), RNIL()))
    c(GEP_ + 'slide', [ANY(), ENCF('a', 32, hi=2**253 - 1, zero=False)], lambda st, r, V: one(RDIGITS(V)),
      trusted=proved_digits(256, 2**253 - 1, 300, SLIDE_VALUES))
    c(GEP_ + 'doubleScalarMultiplyVariableTime',
      [gep('B', P3, tables='double'), gep('A', P3, tables='double'),
       ENCF('a', 32, hi=2**253 - 1, zero=False), ENCF('b', 32, hi=2**253 - 1, zero=False)],
      lambda st, B, A, a, b: one(RGE(P2, B.pt.scale(b) - A.pt.scale(a)), RNIL()), merging=True)
    cx.candidate = candidate
    return out


def build(cx):
    P = cx.P
    reg = {}
    for ct in field_contracts(P) + group_contracts(cx):
        reg[ct.name] = ct
    import api
    reg.update(api.build(cx))
    import mathapi
    reg.update(mathapi.build(cx, cx.candidate))
    return reg
