"""Assumed contracts of external (standard library / dependency) functions."""
import kernel as kn
import loops
from kernel import K, Poly, pc, pa, padd, psub, pscale, pmul, fdiv, pmod, NEG, POS, P25519, finject, can
from state import *
from exec import *
import exec as ex_

MODELS = {}
INVOKE = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def imodel(t, *ms):
    def d(f):
        for m in ms:
            INVOKE[(t, m)] = f
        return f
    return d


def mkerr(kind, msg=None):
    return Iface('*errors.errorString', Opaque('error', (kind, msg)))


def bytes_obj(st, ivs):
    o = new_obj()
    st.heap[o] = Ar(ivs)
    n = len(ivs)
    return Slice(o, (), kn.ZERO, ic(n), ic(n))


def le_bytes(v, n, st=None):
    """the n little endian bytes of the (non negative) polynomial v"""
    b = st.b if st is not None else kn.NOB
    fl = [fdiv(v, 1 << (8 * i), b) for i in range(n + 1)]
    return [IV(psub(fl[i], pscale(fl[i + 1], 256)), 0, 255) for i in range(n)]


def le_value(ivs):
    r = kn.ZERO
    for i, v in enumerate(ivs):
        r = padd(r, pscale(v.p, 1 << (8 * i)))
    return r


def elems_of(ex, st, s):
    """concrete list of element values of a byte slice, or None"""
    ps = ex.slice_content(st, s)
    return pieces_elems(ps)


def same_values(ex, st, a, b):
    """formula: equality of two byte slices"""
    la, lb = st.simp(a.len.p), st.simp(b.len.p)
    f = eq0(psub(la, lb))
    d = st.decide(f)
    if d is False:
        return FALSE
    pa_, pb_ = ex.slice_content(st, a), ex.slice_content(st, b)
    ea, eb = pieces_elems(pa_), pieces_elems(pb_)
    if d is None:
        raise NeedFork(f)
    if ea is not None and eb is not None:
        va, vb = st.simp(le_value(ea)), st.simp(le_value(eb))
        return eq0(psub(va, vb))
    if pieces_key(st, pa_) == pieces_key(st, pb_):
        return TRUE
    return ('b', ('bytes-eq',) + tuple(sorted([repr(pieces_key(st, pa_)), repr(pieces_key(st, pb_))])))


# ---------------------------------------------------------------- math/big
def big(ex, st, p):
    ex.deref(st, p)
    v = ex.load(st, p)
    if not isinstance(v, BI):
        raise Unsupported('not a big.Int')
    return v.v


LONG = 8


def bigf(ex, st, *ps):
    """field images of big integers, kept beside them once one of them is a long sum"""
    vs = [ex.load(st, p) for p in ps]
    if all(v.f is None and not longsum(v.v.p) for v in vs):
        return None
    return [v.f if v.f is not None else kn.fimg(st.simp(v.v.p)) if longsum(v.v.p) else finject(st.simp(v.v.p))
            for v in vs]


def longsum(p):
    return len(p.d) > LONG and all(len(k) <= 1 for k in p.d)


def setbig(ex, st, p, iv, f=None):
    ex.deref(st, p)
    old = ex.load(st, p)
    if isinstance(old, BI) and old.shared:
        raise Unsupported('a big.Int that shares its words with a copy is overwritten')
    ex.store(st, p, BI(iv, False, f))
    return ret(st, p)


def newbig(st, iv):
    o = new_obj()
    st.heap[o] = BI(iv)
    return Ptr(o)


@model('math/big.NewInt')
def _(ex, st, a, x):
    return ret(st, newbig(st, a[0]))


@model('(*math/big.Int).Add')
def _(ex, st, a, x):
    u, v = big(ex, st, a[1]), big(ex, st, a[2])
    f = bigf(ex, st, a[1], a[2])
    # a sum of long sums is a long sum itself, unless a factor was already named
    f = f[0] + f[1] if f and any(ex.load(st, q).f is not None for q in a[1:3]) else None
    return setbig(ex, st, a[0], IV(padd(u.p, v.p), u.lo + v.lo, u.hi + v.hi), f)


@model('(*math/big.Int).Sub')
def _(ex, st, a, x):
    u, v = big(ex, st, a[1]), big(ex, st, a[2])
    f = bigf(ex, st, a[1], a[2])
    f = f[0] - f[1] if f and any(ex.load(st, q).f is not None for q in a[1:3]) else None
    return setbig(ex, st, a[0], IV(psub(u.p, v.p), u.lo - v.hi, u.hi - v.lo), f)


@model('(*math/big.Int).Mul')
def _(ex, st, a, x):
    u, v = big(ex, st, a[1]), big(ex, st, a[2])
    lo, hi = kn.imul((u.lo, u.hi), (v.lo, v.hi))
    if u.p == v.p:
        lo = max(lo, 0)
    f = bigf(ex, st, a[1], a[2])
    return setbig(ex, st, a[0], IV(pmul(u.p, v.p), lo, hi), f and f[0] * f[1])


@model('(*math/big.Int).Neg')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    f = ex.load(st, a[1]).f
    return setbig(ex, st, a[0], IV(pscale(u.p, -1), -u.hi, -u.lo), f and -f)


@model('(*math/big.Int).Set')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    return setbig(ex, st, a[0], u, ex.load(st, a[1]).f)


@model('(*math/big.Int).Abs')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    f = fnot(le0(padd(st.simp(u.p), pc(1))))
    d = st.decide(f)
    if d is None:
        raise NeedFork(f)
    if d:
        return setbig(ex, st, a[0], u)
    return setbig(ex, st, a[0], IV(pscale(u.p, -1), -u.hi, -u.lo))


@model('(*math/big.Int).Lsh')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    k = st.iconst(a[2])
    if k is None:
        lo, hi = st.b.ival(st.simp(a[2].p))
        if lo >= 0 and hi - lo > 512:
            p = pmul(st.simp(u.p), loops.pow2(st.simp(a[2].p)))
            return setbig(ex, st, a[0], loops.mkiv(st, p))
        ex.enum(st, a[2])
    return setbig(ex, st, a[0], IV(pscale(u.p, 1 << k), u.lo * (1 << k), u.hi * (1 << k)))


@model('(*math/big.Int).Rsh')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    k = st.iconst(a[2])
    if k is None:
        ex.enum(st, a[2])
    return setbig(ex, st, a[0], st.mk(fdiv(u.p, 1 << k, st.b)))


def modint(st, u, m, f=None):
    if m == P25519:
        c = u.p.const()
        if c is not None:
            return ic(c % m)
        lo, hi = st.b.ival(u.p)
        lo, hi = max(lo, u.lo), min(hi, u.hi)
        if 0 <= lo and hi < P25519:
            return IV(u.p, lo, hi)
        return IV(can(finject(u.p) if f is None else f), 0, P25519 - 1)
    q = pmod(u.p, m, st.b)
    lo, hi = st.b.ival(q)
    return IV(q, max(lo, 0), min(hi, m - 1))


def bigconst(ex, st, p):
    v = big(ex, st, p)
    c = st.iconst(v)
    return c


@model('(*math/big.Int).Mod')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    m = bigconst(ex, st, a[2])
    if m is None:
        raise Unsupported('Mod by a symbolic value')
    if m == 0:
        raise GoPanic('division by zero')
    f = bigf(ex, st, a[1])
    return setbig(ex, st, a[0], modint(st, u, abs(m), f and f[0]))


@model('(*math/big.Int).Rem', '(*math/big.Int).Quo', '(*math/big.Int).Div')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    m = bigconst(ex, st, a[2])
    if m is None or m <= 0:
        raise Unsupported('division by a symbolic value')
    f = fnot(le0(padd(st.simp(u.p), pc(1))))
    d = st.decide(f)
    name = x['call']['fn']['n']
    if d is not True and not name.endswith('Div'):
        if d is None:
            raise NeedFork(f)
        raise Unsupported('truncated division of a negative number')
    if name.endswith('Rem'):
        return setbig(ex, st, a[0], modint(st, u, m))
    return setbig(ex, st, a[0], st.mk(fdiv(u.p, m, st.b)))


@model('(*math/big.Int).DivMod', '(*math/big.Int).QuoRem')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    m = bigconst(ex, st, a[2])
    if m is None or m <= 0:
        raise Unsupported('division by a symbolic value')
    if x['call']['fn']['n'].endswith('QuoRem'):
        f = fnot(le0(padd(st.simp(u.p), pc(1))))
        d = st.decide(f)
        if d is None:
            raise NeedFork(f)
        if d is False:
            raise Unsupported('truncated division of a negative number')
    q, r = st.mk(fdiv(u.p, m, st.b)), modint(st, u, m)
    setbig(ex, st, a[3], r)
    setbig(ex, st, a[0], q)
    return ret(st, (a[0], a[3]))


@model('(*math/big.Int).And', '(*math/big.Int).Or', '(*math/big.Int).Xor', '(*math/big.Int).AndNot')
def _(ex, st, a, x):
    name = x['call']['fn']['n'].split('.')[-1]
    tok = {'And': '&', 'Or': '|', 'Xor': '^', 'AndNot': '&^'}[name]
    u, v = big(ex, st, a[1]), big(ex, st, a[2])
    for w in (u, v):
        f = fnot(le0(padd(st.simp(w.p), pc(1))))
        d = st.decide(f)
        if d is None:
            raise NeedFork(f)
        if d is False:
            raise Unsupported('bit operation on a negative number')
    bits = max(8, *[(int(min(w.hi, 1 << 600)) + 1).bit_length() for w in (u, v)])
    if bits > 560:
        raise Unsupported('bit operation on an unbounded number')
    return setbig(ex, st, a[0], ex.bitop(st, tok, u, v, bits, False))


@model('(*math/big.Int).ProbablyPrime')
def _(ex, st, a, x):
    raise Unsupported('ProbablyPrime')


@model('(*math/big.Int).TrailingZeroBits')
def _(ex, st, a, x):
    c = bigconst(ex, st, a[0])
    if c is None:
        raise Unsupported('TrailingZeroBits of a symbolic value')
    return ret(st, ic((c & -c).bit_length() - 1 if c else 0))


def remove(k, i, n):
    k = list(k)
    for _ in range(n):
        k.remove(i)
    return tuple(k)


@model('(*math/big.Int).Exp')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    e = bigconst(ex, st, a[2])
    m = 0 if a[3] is NIL else bigconst(ex, st, a[3])
    if e is None or m is None:
        raise Unsupported('Exp with symbolic exponent or modulus')
    c = st.iconst(u)
    if m == 0:
        if e < 0:
            return setbig(ex, st, a[0], ic(1))
        if c is not None:
            return setbig(ex, st, a[0], ic(c ** e))
        if e > 64:
            raise Unsupported('big power')
        p = kn.ppow(u.p, e)
        return setbig(ex, st, a[0], st.mk(p))
    if c is not None and e >= 0:
        return setbig(ex, st, a[0], ic(pow(c, e, abs(m))))
    if m != P25519 or e < 0:
        raise Unsupported('modular power')
    f = bigf(ex, st, a[1])
    if f:
        return setbig(ex, st, a[0], IV(can(kn.fpow(f[0], e)), 0, P25519 - 1))
    # keep common factors apart
    common = None
    for k in u.p.d:
        cnt = {i: k.count(i) for i in k}
        common = cnt if common is None else {i: min(n, cnt.get(i, 0)) for i, n in common.items()}
    rest, f = u.p.d, kn.fp(1)
    for i, n in sorted((common or {}).items()):
        if n:
            f = f * kn.fpow(finject(pa(K.atoms[i])), e * n)
            rest = {remove(k, i, n): c for k, c in rest.items()}
    F = finject(Poly(rest))
    for i in sorted({i for k in rest for i in k}):
        at = K.atoms[i]
        if at.kind == 'u' and at.data[1] == 'can' and len(F.d) > 1:
            while True:
                q = kn.fdivide(F, at.arg)
                if q is None:
                    break
                F, f = q, f * kn.fpow(at.arg, e)
    f = f * kn.fpow(F, e)
    return setbig(ex, st, a[0], IV(can(f), 0, P25519 - 1))


@model('(*math/big.Int).ModInverse')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    m = bigconst(ex, st, a[2])
    c = st.iconst(u)
    if m is None:
        raise Unsupported('ModInverse modulus')
    if c is not None:
        from math import gcd
        if gcd(c, m) != 1:
            return ret(st, NIL)
        return setbig(ex, st, a[0], ic(pow(c, -1, m)))
    if m != P25519:
        raise Unsupported('ModInverse modulus')
    f = bigf(ex, st, a[1])
    f = f[0] if f else finject(st.simp(u.p))
    q = feq0(f)
    d = st.decide(q)
    if d is None:
        raise NeedFork(q)
    if d:
        return ret(st, NIL)
    return setbig(ex, st, a[0], IV(can(kn.finv(f)), 0, P25519 - 1))


@model('(*math/big.Int).ModSqrt')
def _(ex, st, a, x):
    raise Unsupported('ModSqrt')


@model('(*math/big.Int).Cmp')
def _(ex, st, a, x):
    u, v = big(ex, st, a[0]), big(ex, st, a[1])
    d = psub(st.simp(u.p), st.simp(v.p))
    lt = le0(padd(d, pc(1)))
    r = st.decide(lt)
    if r is None:
        raise NeedFork(lt)
    if r:
        return ret(st, ic(-1))
    gt = le0(psub(pc(1), d))
    r = st.decide(gt)
    if r is None:
        raise NeedFork(gt)
    return ret(st, ic(1 if r else 0))


@model('(*math/big.Int).CmpAbs')
def _(ex, st, a, x):
    raise Unsupported('CmpAbs')


@model('(*math/big.Int).Sign')
def _(ex, st, a, x):
    u = big(ex, st, a[0])
    d = st.simp(u.p)
    lt = le0(padd(d, pc(1)))
    r = False if u.lo >= 0 else st.decide(lt)
    if r is None:
        raise NeedFork(lt)
    if r:
        return ret(st, ic(-1))
    gt = le0(psub(pc(1), d))
    r = st.decide(gt)
    if r is None:
        raise NeedFork(gt)
    return ret(st, ic(1 if r else 0))


@model('(*math/big.Int).SetUint64', '(*math/big.Int).SetInt64')
def _(ex, st, a, x):
    return setbig(ex, st, a[0], a[1])


@model('(*math/big.Int).Int64', '(*math/big.Int).Uint64')
def _(ex, st, a, x):
    u = big(ex, st, a[0])
    return ret(st, ex.wrapb(st, u.p, 64, x['call']['fn']['n'].endswith('.Int64'), None, u.lo, u.hi))


@model('(*math/big.Int).IsInt64', '(*math/big.Int).IsUint64')
def _(ex, st, a, x):
    u = big(ex, st, a[0])
    if x['call']['fn']['n'].endswith('IsInt64'):
        lo, hi = -(1 << 63), (1 << 63) - 1
    else:
        lo, hi = 0, (1 << 64) - 1
    p = st.simp(u.p)
    return ret(st, fand(le0(psub(pc(lo), p)), le0(psub(p, pc(hi)))))


@model('(*math/big.Int).SetString')
def _(ex, st, a, x):
    s, b = a[1], st.iconst(a[2])
    if s.c is None:
        raise Unsupported('SetString of a symbolic string')
    try:
        v = int(s.c, b)
    except ValueError:
        return ret(st, NIL, FALSE)
    setbig(ex, st, a[0], ic(v))
    return ret(st, a[0], TRUE)


def be_value(ivs):
    return le_value(list(reversed(ivs)))


@model('(*math/big.Int).SetBytes')
def _(ex, st, a, x):
    es = [] if a[1].isnil() else elems_of(ex, st, a[1])
    if es is None:
        k = pieces_key(st, ex.slice_content(st, a[1]))
        at = K.func('be', k, 0, None)
        return setbig(ex, st, a[0], IV(pa(at), 0, POS))
    return setbig(ex, st, a[0], IV(st.simp(be_value(es)), 0, (1 << (8 * len(es))) - 1))


@model('(*math/big.Int).Bytes')
def _(ex, st, a, x):
    u = big(ex, st, a[0])
    c = st.iconst(u)
    if c is not None:
        c = abs(c)
        return ret(st, bytes_obj(st, [ic(b) for b in c.to_bytes((c.bit_length() + 7) // 8, 'big')]))
    k = ('bigbytes', st.simp(u.p).key())
    if ex.split_bytes:
        return ret(st, big_bytes_split(ex, st, u, k))
    at = K.func('bytelen', k, 0, None)
    ln = IV(pa(at), 0, POS)
    o = new_obj()
    st.heap[o] = Rope([('s', k, kn.ZERO, ln.p)])
    return ret(st, Slice(o, (), kn.ZERO, ln, ln))


def big_bytes_split(ex, st, u, k):
    """big endian bytes of |u| without leading zeros, by the number of bytes; from 33 bytes on the last 32
    bytes are those of |u| mod 2^256 and the first one is not zero"""
    def need(f):
        d = st.decide(f)
        if d is None:
            raise NeedFork(f)
        return d
    p = st.simp(u.p)
    if need(le0(padd(p, pc(1)))):
        p = pscale(p, -1)
    for n in range(33):
        if need(le0(psub(p, pc((1 << (8 * n)) - 1)))):
            return bytes_obj(st, list(reversed(le_bytes(p, n, st))))
    low = list(reversed(le_bytes(pmod(p, 1 << 256, st.b), 32, st)))
    at = K.func('bytelen', k, 33, 1 << 40)
    top = K.func('topbyte', k, 1, 255)
    o = new_obj()
    st.heap[o] = Rope([('e', (iatom(top),)), ('s', k, pc(1), psub(pa(at), pc(33))), ('e', tuple(low))])
    return Slice(o, (), kn.ZERO, iatom(at), iatom(at))


@model('(*math/big.Int).FillBytes')
def _(ex, st, a, x):
    u = big(ex, st, a[0])
    n = st.iconst(a[1].len)
    if n is None:
        raise Unsupported('FillBytes')
    f = le0(psub(st.simp(u.p), pc((1 << (8 * n)) - 1)))
    g = fnot(le0(padd(st.simp(u.p), pc(1))))
    for h in (f, g):
        d = st.decide(h)
        if d is None:
            raise NeedFork(h)
        if d is False:
            if h is g:
                raise Unsupported('FillBytes of a negative number')
            raise GoPanic('FillBytes')
    bs = list(reversed(le_bytes(st.simp(u.p), n, st)))
    ex.write_range(st, a[1].obj, a[1].path, a[1].off, (('e', tuple(bs)),), pc(n))
    return ret(st, a[1])


@model('(*math/big.Int).Bit')
def _(ex, st, a, x):
    u = big(ex, st, a[0])
    i = st.iconst(a[1])
    if i is None:
        ex.enum(st, a[1])
    b = pmod(fdiv(st.simp(u.p), 1 << i, st.b), 2, st.b)
    return ret(st, IV(b, 0, 1) if b.const() is None else ic(b.const()))


@model('(*math/big.Int).SetBit')
def _(ex, st, a, x):
    u = big(ex, st, a[1])
    i, b = st.iconst(a[2]), st.iconst(a[3])
    if i is None or b is None:
        raise Unsupported('SetBit with symbolic arguments')
    p = st.simp(u.p)
    bit = pmod(fdiv(p, 1 << i, st.b), 2, st.b)
    q = padd(psub(p, pscale(bit, 1 << i)), pc((1 << i) if b else 0))
    return setbig(ex, st, a[0], st.mk(q))


@model('(*math/big.Int).BitLen')
def _(ex, st, a, x):
    u = big(ex, st, a[0])
    c = st.iconst(u)
    if c is not None:
        return ret(st, ic(abs(c).bit_length()))
    p = st.simp(u.p)
    d = st.decide(le0(pscale(p, -1)))
    if d is None:
        raise NeedFork(le0(pscale(p, -1)))
    if not d:
        p = pscale(p, -1)
    # defined by 2^(n-1) <= x < 2^n, see state.special_sign
    at = K.func('bitlen', p.key(), 0, None)
    if at.arg is None:
        at.arg = p
    return ret(st, iatom(at))


@model('(*math/big.Int).String')
def _(ex, st, a, x):
    u = big(ex, st, a[0])
    at = K.func('declen', st.simp(u.p).key(), 1, None)
    return ret(st, Str(key=('dec', st.simp(u.p).key()), ln=iatom(at)))


# ---------------------------------------------------------------- go-xpx-utils
@model('github.com/proximax-storage/go-xpx-utils.BytesToBigInteger')
def _(ex, st, a, x):
    if a[0].isnil():
        return ret(st, newbig(st, ic(0)))
    es = elems_of(ex, st, a[0])
    if es is None:
        k = pieces_key(st, ex.slice_content(st, a[0]))
        at = K.func('le', k, 0, None)
        return ret(st, newbig(st, IV(pa(at), 0, POS)))
    return ret(st, newbig(st, IV(st.simp(le_value(es)), 0, (1 << (8 * len(es))) - 1)))


@model('github.com/proximax-storage/go-xpx-utils.BigIntToByteArray')
def _(ex, st, a, x):
    u = big(ex, st, a[0])
    n = st.iconst(a[1])
    if n is None:
        raise Unsupported('BigIntToByteArray length')
    p = st.simp(u.p)
    f = fnot(le0(padd(p, pc(1))))
    d = True if u.lo >= 0 else st.decide(f)
    if d is None:
        raise NeedFork(f)
    if d is False:
        p = pscale(p, -1)
    # low n bytes of |value|
    lo, hi = st.b.ival(p)
    lo, hi = (max(lo, u.lo), min(hi, u.hi)) if d else (max(lo, -u.hi), min(hi, -u.lo))
    if not (hi < (1 << (8 * n))):
        p = pmod(p, 1 << (8 * n), st.b)
    return ret(st, bytes_obj(st, le_bytes_top(st, p, n)))


def le_bytes_top(st, p, n):
    """little endian bytes of p, known to be in [0,256^n)"""
    fl = [fdiv(p, 1 << (8 * i), st.b) for i in range(n)] + [kn.ZERO]
    return [IV(psub(fl[i], pscale(fl[i + 1], 256)), 0, 255) for i in range(n)]


# ---------------------------------------------------------------- errors, fmt
@model('errors.New', 'github.com/pkg/errors.New', 'fmt.Errorf', 'github.com/pkg/errors.Errorf',
       'github.com/pkg/errors.Wrap', 'github.com/pkg/errors.WithMessage')
def _(ex, st, a, x):
    s = a[0].c if isinstance(a[0], Str) else None
    return ret(st, mkerr('new', s))


@imodel('*errors.errorString', 'Error')
def _(ex, st, a, x):
    return ret(st, Str(key=('errmsg', repr(a[0].data)), ln=iatom(K.func('errlen', repr(a[0].data), 0, None))))


@model('fmt.Println', 'fmt.Printf', 'fmt.Print', 'fmt.Fprintf', 'fmt.Fprintln', 'fmt.Fprint')
def _(ex, st, a, x):
    return ret(st, iatom(K.fresh('n', 0, None)), NIL)


@model('log.Println', 'log.Printf', 'log.Print')
def _(ex, st, a, x):
    return ret(st)


@model('fmt.Sprintf', 'fmt.Sprint', 'fmt.Sprintln')
def _(ex, st, a, x):
    if x['call']['fn']['n'].endswith('Sprintf') and a[0].c is not None:
        r = sprintf(ex, st, a[0].c, a[1])
        if r is not None:
            return ret(st, r)
    at = K.fresh('sprintf', 0, None)
    return ret(st, Str(key=('sprintf', at.name), ln=iatom(at)))


def sprintf(ex, st, fmt, rest):
    """text of a format made of literal text and plain verbs applied to byte slices and strings"""
    import re
    args = [] if rest.isnil() else elems_of(ex, st, rest)
    if args is None:
        return None
    out = Str(c='')
    i = 0
    for t in re.findall(r'%.|[^%]+', fmt, re.S):
        if t[0] != '%':
            r = Str(c=t)
        elif t == '%%':
            r = Str(c='%')
        else:
            if i >= len(args) or not isinstance(args[i], Iface):
                return None
            v, typ = args[i].v, args[i].t
            i += 1
            if typ == 'string' and t in ('%s', '%v'):
                r = v
            elif typ == '[]byte' and t == '%s':
                r = str_from_bytes(ex, st, v)
            elif typ in ('[]byte', 'string') and t in ('%x', '%X'):
                if typ == 'string':
                    v = bytes_from_str(ex, st, v)
                r = hex_text(ex, st, v)
                if t == '%X':
                    r = change_case(r, True)
            else:
                return None
        out = str_cat(out, r)
    return out if i == len(args) else None


# ---------------------------------------------------------------- bytes, subtle
@model('bytes.Equal')
def _(ex, st, a, x):
    s, t = a
    f = eq0(psub(st.simp(s.len.p), st.simp(t.len.p)))
    d = st.decide(f)
    if d is None:
        raise NeedFork(f)
    if d is False:
        return ret(st, FALSE)
    if s.isnil() or t.isnil():
        return ret(st, TRUE)
    return ret(st, same_values(ex, st, s, t))


@model('crypto/subtle.ConstantTimeCompare')
def _(ex, st, a, x):
    f = MODELS['bytes.Equal'](ex, st, a, x)[0].val[0]
    if f == TRUE:
        return ret(st, ic(1))
    if f == FALSE:
        return ret(st, ic(0))
    d = st.decide(f)
    if d is not None:
        return ret(st, ic(1 if d else 0))
    raise NeedFork(f)


@model('crypto/subtle.ConstantTimeByteEq', 'crypto/subtle.ConstantTimeEq')
def _(ex, st, a, x):
    f = ex.equal(st, a[0], a[1])
    d = st.decide(f)
    if d is None:
        raise NeedFork(f)
    return ret(st, ic(1 if d else 0))


@model('crypto/subtle.XORBytes')
def _(ex, st, a, x):
    n = st.iconst(a[1].len), st.iconst(a[2].len)
    if None in n:
        raise Unsupported('XORBytes')
    n = min(n)
    if st.iconst(a[0].len) is None or st.iconst(a[0].len) < n:
        raise GoPanic('subtle.XORBytes: dst too short')
    e1, e2 = elems_of(ex, st, a[1])[:n], elems_of(ex, st, a[2])[:n]
    r = [ex.bitop(st, '^', p, q, 8, False) for p, q in zip(e1, e2)]
    ex.write_range(st, a[0].obj, a[0].path, a[0].off, (('e', tuple(r)),), pc(n))
    return ret(st, ic(n))


# a buffer is the slice of its unread bytes: struct {buf, off, lastRead}
def buffer_bytes(ex, st, p):
    ex.deref(st, p)
    v = ex.load(st, p)
    if not isinstance(v[0], Slice) or st.iconst(v[1]) != 0:
        raise Unsupported('bytes.Buffer that was read from')
    return v, v[0]


def buffer_write(i):
    def go(ex, st, a, x):
        p = a[0]
        if i:
            v, s = buffer_bytes(ex, st, p)
        else:
            ex.deref(st, p)
            v = ex.load(st, p)
            s = v[1]
        b = a[1]
        if isinstance(b, IV):
            b = bytes_obj(st, [b])
        n = str_len(b) if isinstance(b, Str) else b.len
        o, = ex.do_append(st, s, b, x)
        w = list(v)
        w[0 if i else 1] = o.val[0]
        o.st.store(p, St(w))
        return ret(o.st, NIL) if isinstance(a[1], IV) else ret(o.st, n, NIL)
    return go


for _n in ('Write', 'WriteString', 'WriteByte'):
    MODELS['(*bytes.Buffer).' + _n] = buffer_write(True)
    MODELS['(*strings.Builder).' + _n] = buffer_write(False)
MODELS['(*bytes.Buffer).Grow'] = MODELS['(*strings.Builder).Grow'] = lambda ex, st, a, x: [Outcome(st, 'ret', [])]


@model('(*bytes.Buffer).Bytes')
def _(ex, st, a, x):
    return ret(st, buffer_bytes(ex, st, a[0])[1])


@model('(*bytes.Buffer).Len')
def _(ex, st, a, x):
    return ret(st, buffer_bytes(ex, st, a[0])[1].len)


@model('(*bytes.Buffer).String')
def _(ex, st, a, x):
    return ret(st, text_of(ex, st, buffer_bytes(ex, st, a[0])[1]))


@model('(*strings.Builder).String')
def _(ex, st, a, x):
    ex.deref(st, a[0])
    return ret(st, text_of(ex, st, ex.load(st, a[0])[1]))


def text_of(ex, st, s):
    return Str(c='') if s.isnil() else str_from_bytes(ex, st, s)


@model('internal/bytealg.MakeNoZero')
def _(ex, st, a, x):
    n = st.simp(a[0].p)
    d = st.decide(le0(pscale(n, -1)))
    if d is not True:
        raise Unsupported('MakeNoZero')
    o = new_obj()
    fr = K.fresh('nozero', 0, None)
    st.heap[o] = Rope([('s', ('nozero', fr.id), kn.ZERO, n)])
    return ret(st, Slice(o, (), kn.ZERO, a[0], a[0]))


@model('internal/bytealg.Compare', 'internal/bytealg.CompareString')
def _(ex, st, a, x):
    es = []
    for v in a:
        if isinstance(v, Str):
            if v.c is None:
                raise Unsupported('comparison of strings')
            es.append([ic(c) for c in (v.c.encode('latin-1') if isinstance(v.c, str) else v.c)])
        else:
            es.append([] if v.isnil() else pieces_elems(ex.slice_content(st, v)))
    if None in es:
        # of symbolic length: equal or not
        f = MODELS['bytes.Equal'](ex, st, a, x)[0].val[0]
        d = st.decide(f)
        if d is None:
            raise NeedFork(f)
        if d:
            return ret(st, ic(0))
        r = K.var('cmp', 0, 1)
        return ret(st, st.mk(padd(pscale(pa(r), 2), pc(-1))))
    n = min(len(e) for e in es)
    be = [sum_be(e[:n]) for e in es]
    df = psub(*be)
    for f, r in ((eq0(df), None), (le0(padd(df, pc(1))), -1)):
        d = st.decide(f)
        if d is None:
            raise NeedFork(f)
        if d:
            if r is None:
                r = (len(es[0]) > n) - (len(es[1]) > n)
            return ret(st, ic(r))
    return ret(st, ic(1))


def sum_be(es):
    p = kn.ZERO
    for e in es:
        p = padd(pscale(p, 256), e.p)
    return p


@model('internal/bytealg.Equal')
def _(ex, st, a, x):
    return MODELS['bytes.Equal'](ex, st, a, x)


@model('bytes.Clone')
def _(ex, st, a, x):
    if a[0].isnil():
        return ret(st, NILSLICE)
    o = new_obj()
    ps = ex.slice_content(st, a[0])
    es = pieces_elems(ps)
    st.heap[o] = Ar(es) if es is not None else rope_norm(ps)
    return ret(st, Slice(o, (), kn.ZERO, a[0].len, a[0].len))


@model('bytes.Repeat')
def _(ex, st, a, x):
    n = st.iconst(a[1])
    if n is None:
        ex.enum(st, a[1])
    es = elems_of(ex, st, a[0])
    if es is None:
        raise Unsupported('bytes.Repeat')
    return ret(st, bytes_obj(st, es * n))


@model('(encoding/binary.littleEndian).Uint64')
def _(ex, st, a, x):
    s = a[1]
    if s.len.lo < 8:
        d = st.decide(le0(psub(pc(8), s.len.p)))
        if d is not True:
            raise GoPanic('index out of range')
    es = elems_of(ex, st, Slice(s.obj, s.path, s.off, ic(8), s.cap))
    return ret(st, IV(st.simp(le_value(es)), 0, (1 << 64) - 1))


@model('(encoding/binary.littleEndian).Uint32')
def _(ex, st, a, x):
    s = a[1]
    if s.len.lo < 4:
        d = st.decide(le0(psub(pc(4), s.len.p)))
        if d is not True:
            raise GoPanic('index out of range')
    es = elems_of(ex, st, Slice(s.obj, s.path, s.off, ic(4), s.cap))
    return ret(st, IV(st.simp(le_value(es)), 0, (1 << 32) - 1))


MODELS['var:encoding/binary.LittleEndian'] = St([])


# ---------------------------------------------------------------- hashes
HASHES = {'sha3-512': 64, 'sha3-256': 32, 'keccak-256': 32, 'sha-256': 32, 'ripemd-160': 20,
          'sha3-224': 28, 'sha3-384': 48, 'keccak-512': 64, 'sha-512': 64, 'sha-1': 20, 'sha-224': 28}
BLOCK = {'sha3-512': 72, 'sha3-256': 136, 'keccak-256': 136, 'sha-256': 64, 'ripemd-160': 64}


def hash_new(name):
    def f(ex, st, a, x):
        o = new_obj()
        st.heap[o] = Opaque('hash', (name, ()))
        return ret(st, Iface('hash', Ptr(o)))
    return f


for _n, _h in (('golang.org/x/crypto/sha3.New512', 'sha3-512'), ('golang.org/x/crypto/sha3.New256', 'sha3-256'),
               ('golang.org/x/crypto/sha3.NewLegacyKeccak256', 'keccak-256'), ('crypto/sha256.New', 'sha-256'),
               ('golang.org/x/crypto/ripemd160.New', 'ripemd-160'), ('golang.org/x/crypto/sha3.New384', 'sha3-384'),
               ('golang.org/x/crypto/sha3.New224', 'sha3-224'),
               ('golang.org/x/crypto/sha3.NewLegacyKeccak512', 'keccak-512'), ('crypto/sha512.New', 'sha-512'),
               ('crypto/sha1.New', 'sha-1'), ('crypto/sha256.New224', 'sha-224')):
    MODELS[_n] = hash_new(_h)


def digest(st, name, ps):
    return le_bytes_top(st, pa(hash_atom(st, name, ps)), HASHES[name])


HASHED = {}         # name -> [(atom, pieces)]


def hash_atom(st, name, ps):
    """the digest of the pieces as an integer; inputs that are equal on the path have one digest"""
    n = HASHES[name]
    # the atom stands for the digest of these very pieces: nothing of the path may stay implicit in them
    ps = tuple(simp_piece(st, p) for p in ps)
    key = pieces_key(st, ps)
    at = K.func('H', (name, key), 0, (1 << (8 * n)) - 1)
    old = HASHED.setdefault(name, [])
    if at.arg is not None or not st.env:
        if at.arg is None:
            at.arg = ps
            old.append((at, ps))
        if not st.env:
            return at
    for b, qs in old:
        if pieces_key(st, qs) == key:
            return b
    at.arg = ps
    old.append((at, ps))
    return at


def simp_piece(st, p):
    if p[0] == 'e':
        return ('e', tuple(IV(st.simp(v.p), v.lo, v.hi) for v in p[1]))
    if p[0] == 's':
        return ('s', p[1], st.simp(p[2]), st.simp(p[3]))
    return (p[0], IV(st.simp(p[1].p), p[1].lo, p[1].hi), st.simp(p[2]))


@imodel('hash', 'Write')
def _(ex, st, a, x):
    h = st.get(a[0].obj)
    name, ps = h.data
    if not a[1].isnil():
        ps = rope_norm(tuple(ps) + tuple(ex.slice_content(st, a[1]))).ps
    st.heap[a[0].obj] = Opaque('hash', (name, ps))
    return ret(st, a[1].len, NIL)


@imodel('hash', 'Sum')
def _(ex, st, a, x):
    h = st.get(a[0].obj)
    name, ps = h.data
    d = bytes_obj(st, digest(st, name, ps))
    if a[1].isnil():
        # sha3 returns a fresh slice
        return ret(st, d)
    return ex.do_append(st, a[1], d, x)


@imodel('hash', 'Reset')
def _(ex, st, a, x):
    st.heap[a[0].obj] = Opaque('hash', (st.get(a[0].obj).data[0], ()))
    return [Outcome(st, 'ret', [])]


@imodel('hash', 'Size')
def _(ex, st, a, x):
    return ret(st, ic(HASHES[st.get(a[0].obj).data[0]]))


@imodel('hash', 'BlockSize')
def _(ex, st, a, x):
    return ret(st, ic(BLOCK[st.get(a[0].obj).data[0]]))


def hash_once(name):
    def f(ex, st, a, x):
        ps = () if a[0].isnil() else ex.slice_content(st, a[0])
        return ret(st, Ar(digest(st, name, ps)))
    return f


for _n, _h in (('golang.org/x/crypto/sha3.Sum512', 'sha3-512'), ('golang.org/x/crypto/sha3.Sum256', 'sha3-256'),
               ('crypto/sha256.Sum256', 'sha-256'), ('crypto/sha3.Sum256', 'sha3-256'),
               ('crypto/sha3.Sum512', 'sha3-512'), ('crypto/sha512.Sum512', 'sha-512')):
    MODELS[_n] = hash_once(_h)


# ---------------------------------------------------------------- AES-CBC
@model('crypto/aes.NewCipher')
def _(ex, st, a, x):
    n = st.iconst(a[0].len)
    if n is None:
        raise Unsupported('AES key of symbolic length')
    if n not in (16, 24, 32):
        return ret(st, NIL, mkerr('aes key size'))
    key = pieces_key(st, ex.slice_content(st, a[0]))
    return ret(st, Iface('aesblock', Opaque('aes', key)), NIL)


@imodel('aesblock', 'BlockSize')
def _(ex, st, a, x):
    return ret(st, ic(16))


def cbc(direction):
    def f(ex, st, a, x):
        if a[0] is NIL:
            raise GoPanic('nil block')
        n = st.iconst(a[1].len)
        if n is None:
            f_ = eq0(psub(st.simp(a[1].len.p), pc(16)))
            d = st.decide(f_)
            if d is None:
                raise NeedFork(f_)
            n = 16 if d else 0
        if n != 16:
            raise GoPanic('IV length must equal block size')
        iv = pieces_key(st, ex.slice_content(st, a[1]))
        o = new_obj()
        st.heap[o] = Opaque('cbc', (direction, a[0].v.data, iv, False))
        return ret(st, Iface('cbc', Ptr(o)))
    return f


MODELS['crypto/cipher.NewCBCEncrypter'] = cbc('enc')
MODELS['crypto/cipher.NewCBCDecrypter'] = cbc('dec')

CBC_PIECES = {}     # key of an encryption -> pieces of the plaintext


@imodel('cbc', 'BlockSize')
def _(ex, st, a, x):
    return ret(st, ic(16))


@imodel('cbc', 'CryptBlocks')
def _(ex, st, a, x):
    h, dst, src = a
    direction, key, iv, used = st.get(h.obj).data
    n = st.simp(src.len.p)
    f = eq0(pmod(n, 16, st.b))
    d = st.decide(f)
    if d is None:
        raise NeedFork(f)
    if not d:
        raise GoPanic('crypto/cipher: input not full blocks')
    f = le0(psub(n, st.simp(dst.len.p)))
    d = st.decide(f)
    if d is None:
        raise NeedFork(f)
    if not d:
        raise GoPanic('crypto/cipher: output smaller than input')
    if used:
        raise Unsupported('CryptBlocks called twice')
    z = eq0(n)
    d = st.decide(z)
    if d is None:
        raise NeedFork(z)
    if d:
        return [Outcome(st, 'ret', [])]
    ps = ex.slice_content(st, src)
    pk = pieces_key(st, ps)
    st.heap[h.obj] = Opaque('cbc', (direction, key, iv, True))
    inv = 'dec' if direction == 'enc' else 'enc'
    # inverse direction with the same key and iv cancels
    if len(pk) == 1 and pk[0][0] == 's' and isinstance(pk[0][1], tuple) and pk[0][1][0] == inv \
            and pk[0][1][1] == key and pk[0][1][2] == iv and pk[0][2] == kn.ZERO.key():
        orig, on = CBC_PIECES[pk[0][1]]
        if st.decide(eq0(psub(st.simp(on), n))) is True:
            ex.write_range(st, dst.obj, dst.path, dst.off, orig, n)
            return [Outcome(st, 'ret', [])]
    sk = (direction, key, iv, pk)
    CBC_PIECES[sk] = (ps, n)
    ex.write_range(st, dst.obj, dst.path, dst.off, (('s', sk, kn.ZERO, n),), n)
    return [Outcome(st, 'ret', [])]


# ---------------------------------------------------------------- readers
MODELS['var:crypto/rand.Reader'] = Iface('reader', Opaque('reader', 'crypto/rand'))


def reader_pos(st, rid):
    return sum(e[2] for e in st.log if e[0] == 'read' and e[1] == rid)


@model('io.ReadFull')
def _(ex, st, a, x):
    r, buf = a
    if r is NIL:
        raise GoPanic('nil reader')
    if not (isinstance(r, Iface) and r.t == 'reader'):
        raise Unsupported('reader %r' % (r,))
    rid = r.v.data
    n = st.iconst(buf.len)
    if n is None:
        raise Unsupported('ReadFull of symbolic length')
    return read_full(ex, st, rid, buf, n)


def stream_byte(rid, i):
    at = K.func('rndbyte', (rid, i), 0, 255)
    return IV(pa(at), 0, 255)


def read_full(ex, st, rid, buf, n, atleast=None):
    if any(e[0] == 'readerr' and e[1] == rid for e in st.log):
        raise Unsupported('reader used after an error')
    pos = reader_pos(st, rid)
    s2 = st.copy()
    out = []
    # success
    bs = stream_bytes(st, rid, pos, n)
    if n:
        ex.write_range(st, buf.obj, buf.path, buf.off, (('e', tuple(bs)),), pc(n))
    st.log = st.log + (('read', rid, n),)
    out.append(Outcome(st, 'ret', [ic(n), NIL]))
    if n:
        k = K.fresh('nread', 0, n - 1)
        hv = [iatom(K.fresh('junk', 0, 255)) for _ in range(n)]
        ex.write_range(s2, buf.obj, buf.path, buf.off, (('e', tuple(hv)),), pc(n))
        s2.log = s2.log + (('readerr', rid, n),)
        s2.trace = s2.trace + (('io.ReadFull fails', TRUE),)
        out.append(Outcome(s2, 'ret', [iatom(k), Iface('*errors.errorString', Opaque('error', ('read', rid)))]))
    return out


def stream_bytes(st, rid, pos, n):
    """n bytes of the random stream at a position"""
    return [stream_byte(rid, pos + i) for i in range(n)]


@model('io.ReadAtLeast')
def _(ex, st, a, x):
    r, buf, mn = a
    n, m = st.iconst(buf.len), st.iconst(mn)
    if n is None or m is None or not (isinstance(r, Iface) and r.t == 'reader'):
        raise Unsupported('ReadAtLeast')
    if m == n:
        return read_full(ex, st, r.v.data, buf, n)
    return partial_read(ex, st, r.v.data, buf, n, m)


def partial_read(ex, st, rid, buf, n, m):
    s2 = st.copy()
    k = K.fresh('nread', m, n)
    hv = [iatom(K.fresh('junk', 0, 255)) for _ in range(n)]
    for s in (st, s2):
        if n:
            ex.write_range(s, buf.obj, buf.path, buf.off, (('e', tuple(hv)),), pc(n))
    st.log = st.log + (('read', rid, 0), ('partial', rid, n))
    s2.log = s2.log + (('readerr', rid, n),)
    st.trace = st.trace + (('partial read', TRUE),)
    s2.trace = s2.trace + (('read fails', TRUE),)
    return [Outcome(st, 'ret', [iatom(k), NIL]),
            Outcome(s2, 'ret', [iatom(K.fresh('nread', 0, n)), Iface('*errors.errorString', Opaque('error', ('read', rid)))])]


@imodel('reader', 'Read')
def _(ex, st, a, x):
    n = st.iconst(a[1].len)
    if n is None:
        raise Unsupported('Read of symbolic length')
    return partial_read(ex, st, a[0].data, a[1], n, 0)


@model('crypto/rand.Read')
def _(ex, st, a, x):
    n = st.iconst(a[0].len)
    if n is None:
        raise Unsupported('rand.Read of symbolic length')
    return read_full(ex, st, 'crypto/rand', a[0], n)


# ---------------------------------------------------------------- hex, strings
@model('encoding/hex.EncodeToString')
def _(ex, st, a, x):
    return ret(st, hex_text(ex, st, a[0]))


def hex_text(ex, st, s):
    if s.isnil():
        return Str(c='')
    ps = ex.slice_content(st, s)
    es = pieces_elems(ps)
    if es is not None and all(e.const() is not None for e in es):
        return Str(c=bytes(e.const() for e in es).hex())
    HEXOF[('hex', pieces_key(st, ps))] = (ps, s.len.p)
    return Str(key=('hex', pieces_key(st, ps)), ln=IV(pscale(s.len.p, 2), s.len.lo * 2, s.len.hi * 2))


HEXOF = {}      # key of an encoded string -> its bytes


@model('strings.ToUpper', 'strings.ToLower')
def _(ex, st, a, x):
    return ret(st, change_case(a[0], x['call']['fn']['n'].endswith('ToUpper')))


def change_case(s, up):
    if s.c is not None:
        return Str(c=s.c.upper() if up else s.c.lower())
    k = str_key(s)
    if k[0] == 'hex' and not up:
        return s
    return Str(key=('upper' if up else 'lower', k), ln=s.len if k[0] == 'hex' else
               iatom(K.func('strlen', ('case', up, k), 0, None)))


@model('encoding/hex.DecodeString')
def _(ex, st, a, x):
    s = a[0]
    if s.c is not None:
        try:
            b = bytes.fromhex(s.c) if len(s.c) % 2 == 0 and ' ' not in s.c else None
        except ValueError:
            b = None
        if b is None:
            return ret(st, NILSLICE, mkerr('hex'))
        return ret(st, bytes_obj(st, [ic(v) for v in b]), NIL)
    k = str_key(s)
    kk = k[1] if k[0] == 'upper' else k
    if kk in HEXOF:
        # decoding inverts encoding, in either case of the letters
        ps, n = HEXOF[kk]
        o = new_obj()
        st.heap[o] = Rope(ps)
        return ret(st, Slice(o, (), kn.ZERO, st.mk(n), st.mk(n)), NIL)
    if k[0] == 'hex':
        raise Unsupported('decode of an encoded string')
    ok = ('b', ('ishex', k))
    ln = st.simp(s.len.p)
    even = eq0(pmod(ln, 2, st.b))
    d = st.decide(even)
    if d is None:
        raise NeedFork(even)
    if d:
        d = st.decide(ok)
        if d is None:
            raise NeedFork(ok)
    o = new_obj()
    if not d:
        # bytes decoded before the error
        l = K.fresh('hexpart', 0, None)
        st.heap[o] = Rope([('s', ('unhexpart', k), kn.ZERO, pa(l))])
        return ret(st, Slice(o, (), kn.ZERO, iatom(l), iatom(l)), mkerr('hex'))
    n = fdiv(ln, 2, st.b)
    st.heap[o] = Rope([('s', ('unhex', k), kn.ZERO, n)])
    return ret(st, Slice(o, (), kn.ZERO, st.mk(n), st.mk(n)), NIL)


@model('encoding/hex.DecodedLen')
def _(ex, st, a, x):
    return ret(st, st.mk(fdiv(a[0].p, 2, st.b)))


def install(ex):
    ex.models.update(MODELS)
    ex.invoke_models.update(INVOKE)
