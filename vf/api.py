"""Contracts of the API layer: hashing, keys, signatures, encryption."""
import kernel as kn
from kernel import (K, Poly, FP, pc, pa, padd, psub, pscale, pmul, fdiv, pmod, NEG, POS,
                    P25519, L25519, D25519, fp, can)
from state import *
from exec import *
from spec import *
import time
import models, points, loops
from models import hash_atom, le_bytes_top, le_value

B = points.sym('B')
Z0 = kn.ZERO


# ---------------------------------------------------------------- shapes
class BytesParam:
    """slice: the argument, ps: its pieces, n: length polynomial, V: little endian value (concrete length)"""
    def __init__(self, sl, ps, n, V):
        self.slice, self.ps, self.n, self.V = sl, ps, n, V


def mk_bytes(cx, st, ivs, spare=0):
    """byte slice with spare capacity behind it"""
    o = new_obj()
    st.heap[o] = Ar(list(ivs) + [iatom(K.fresh('spare', 0, 255)) for _ in range(spare)])
    n = len(ivs)
    return BytesParam(Slice(o, (), Z0, ic(n), ic(n + spare)), (('e', tuple(ivs)),) if n else (), pc(n), le_value(ivs))


def pieces_of_param(cx, st, sl):
    ps = cx.ex.slice_content(st, sl)
    es = pieces_elems(ps)
    return BytesParam(sl, ps, sl.len.p, le_value(es) if es is not None else None)


def every_length(cx):
    if not getattr(cx, 'every', None):
        cx.every = True
        end = time.time() + (60 if getattr(cx.ex, 'tier', 'quick') == 'quick' else 300)
        cx.ex.deadline = min(cx.ex.deadline, end) if cx.ex.deadline else end


class BYTES(Shape):
    """n: concrete length, None: every length, 'nil': nil slice"""
    def __init__(self, name, n=None, spare=64, lo=0):
        self.name, self.n, self.spare, self.lo = name, n, spare, lo

    def make(self, cx, st):
        n = self.n
        if n is None and getattr(cx, 'length', None) is not None:
            n = max(cx.length, self.lo)
        if n == 'nil':
            p = BytesParam(NILSLICE, (), Z0, Z0)
        elif n is None:
            every_length(cx)
            l = K.var('len(%s)' % self.name, self.lo, 1 << 40)
            ps = (('s', ('arg', self.name), Z0, pa(l)),)
            sp = K.var('spare(%s)' % self.name, 0, 1 << 40)
            o = new_obj()
            st.heap[o] = Rope(ps + (('s', ('spare', self.name), Z0, pa(sp)),))
            p = BytesParam(Slice(o, (), Z0, iatom(l), IV(padd(pa(l), pa(sp)), 0, 1 << 41)), ps, pa(l), None)
        else:
            p = mk_bytes(cx, st, [iatom(K.var('%s[%d]' % (self.name, i), 0, 255)) for i in range(n)], self.spare)
        return p.slice, p


def struct(cx, typ, **kw):
    t = cx.tid(typ)
    d = cx.fields(t)
    s = list(cx.prog.zero(t))
    for k, v in kw.items():
        s[d[k]] = v
    return St(s)


def get_field(cx, st, v, typ, field):
    if isinstance(v, Ptr):
        v = cx.ex.load(st, v)
    return v[cx.fields(cx.tid(typ))[field]]


def mk_priv(cx, st, sl):
    v = models.newbig(st, IV(pa(K.fresh('privvalue', 0, None)), 0, POS))
    return cx.alloc(st, struct(cx, 'PrivateKey', value=v, Raw=sl))


def made_by(cx, st, fn, *args):
    """the value a function of the library with one outcome makes"""
    outs = cx.ex.run(fn, list(args), st)
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise Unsupported('%s: %r' % (fn, outs))
    o = outs[0].st
    st.heap, st.facts, st.env, st.b = o.heap, o.facts, o.env, o.b
    return outs[0].val[0]


class PRIV(Shape):
    def __init__(self, name='priv', n=None):
        self.b = BYTES(name, n)

    def make(self, cx, st):
        sl, p = self.b.make(cx, st)
        return mk_priv(cx, st, sl), p


class PUB(Shape):
    def __init__(self, name='pub', n=32):
        self.b = BYTES(name, n)

    def make(self, cx, st):
        sl, p = self.b.make(cx, st)
        return cx.alloc(st, struct(cx, 'PublicKey', Raw=sl)), p


class KeyPairParam:
    priv = pub = val = None


class KP(Shape):
    """key pair; pub: length, None (every length), 'derived'"""
    def __init__(self, name='', priv=None, pub=32, nopriv=False):
        self.name, self.priv, self.pub, self.nopriv = name, priv, pub, nopriv

    def make(self, cx, st):
        k = KeyPairParam()
        pv = NIL
        if not self.nopriv:
            pv, k.priv = PRIV(self.name + 'priv', self.priv).make(cx, st)
        if self.pub == 'derived':
            enc_nonzero(st, B.scale(clamped(st, k.priv)))
            bs = le_bytes_top(st, enc_value(st, B.scale(clamped(st, k.priv))), 32)
            k.pub = mk_bytes(cx, st, bs, 64)
            pb = cx.alloc(st, struct(cx, 'PublicKey', Raw=k.pub.slice))
        else:
            pb, k.pub = PUB(self.name + 'pub', self.pub).make(cx, st)
        k.val = cx.alloc(st, struct(cx, 'KeyPair', PrivateKey=pv, PublicKey=pb))
        return k.val, k


class WRAP(Shape):
    """pointer to a struct with one field given by another shape"""
    def __init__(self, typ, field, shape):
        self.typ, self.field, self.shape = typ, field, shape

    def make(self, cx, st):
        v, p = self.shape.make(cx, st)
        return cx.alloc(st, struct(cx, self.typ, **{self.field: v})), p


class SIGN(Shape):
    def __init__(self, r=32, s=32):
        self.r, self.s = r, s

    def make(self, cx, st):
        r, pr = BYTES('sigR', self.r).make(cx, st)
        s, ps = BYTES('sigS', self.s).make(cx, st)
        return cx.alloc(st, struct(cx, 'Signature', R=r, S=s)), (pr, ps)


class READER(Shape):
    def __init__(self, rid='seed'):
        self.rid = rid

    def make(self, cx, st):
        return Iface('reader', Opaque('reader', self.rid)), self.rid


class VAL(Shape):
    """a given value"""
    def __init__(self, v, p=None):
        self.v, self.p = v, p

    def make(self, cx, st):
        return self.v, self.p


class BIGV(Shape):
    """pointer to a big.Int with any value in the range"""
    def __init__(self, name, lo=None, hi=None, nil=False):
        self.name, self.lo, self.hi, self.nil = name, lo, hi, nil

    def make(self, cx, st):
        if self.nil:
            return NIL, None
        a = K.var(self.name, self.lo, self.hi)
        return models.newbig(st, IV(pa(a), NEG if self.lo is None else self.lo, POS if self.hi is None else self.hi)), pa(a)


class STRING(Shape):
    def __init__(self, name, c=None):
        self.name, self.c = name, c

    def make(self, cx, st):
        if self.c is not None:
            return Str(c=self.c), self.c
        l = K.var('len(%s)' % self.name, 0, 1 << 40)
        s = Str(key=('arg', self.name), ln=iatom(l))
        return s, s


# ---------------------------------------------------------------- results
class RPTR(Res):
    """fresh pointer to a struct whose fields are described"""
    def __init__(self, typ, fresh=True, **fields):
        self.typ, self.fields, self.isfresh = typ, fields, fresh

    def check(self, vc, st, v):
        cx = vc.cx
        if not isinstance(v, Ptr):
            return vc.fail('result is nil')
        if self.isfresh:
            vc.fresh(st, v)
        s = cx.ex.load(st, v)
        t = cx.tid(self.typ)
        d = cx.fields(t)
        if not isinstance(s, St) or len(s) != len(d):
            return vc.fail('result is not a %s' % self.typ)
        for n, r in self.fields.items():
            pre = vc.prefix
            vc.prefix = pre + n + ' '
            r.check(vc, st, s[d[n]])
            vc.prefix = pre


class RSAME(Res):
    """exactly this value (pointer and slice identity)"""
    def __init__(self, v):
        self.v = v

    def check(self, vc, st, v):
        vc.cond('is the given value', same_value(st, v, self.v), '%r is not %r' % (v, self.v))


class RANY(Res):
    def check(self, vc, st, v):
        pass


class RPIECES(Res):
    """byte slice with this content"""
    def __init__(self, ps, fresh=True, nonnil=False):
        self.ps, self.isfresh = ps, fresh

    def check(self, vc, st, v):
        if not isinstance(v, Slice):
            return vc.fail('not a slice')
        if v.isnil():
            got = ()
        else:
            if self.isfresh:
                vc.fresh(st, v)
            got = vc.cx.ex.slice_content(st, v)
        a, b = pieces_key(st, got), pieces_key(st, self.ps)
        if a == b:
            return vc.ok('content')
        ea, eb = pieces_elems(got), pieces_elems(self.ps)
        if ea is not None and eb is not None and len(ea) == len(eb):
            ok = True
            for x, y in zip(ea, eb):
                d = st.simp(psub(x.p, y.p))
                if d.d and st.decide(eq0(d), 2) is not True:
                    ok = False
            return vc.cond('content', ok, 'content differs: %s' % (a,))
        vc.fail('content', 'content is %s, expected %s' % (str(a)[:1500], str(b)[:1500]))


class RSTR(Res):
    def __init__(self, s):
        self.s = s

    def check(self, vc, st, v):
        ok = isinstance(v, Str) and str_key(v) == str_key(self.s)
        vc.cond('text', ok, '%r is not %r' % (v, self.s))


class RREF(Res):
    """value of a lemma parameter computed late"""
    def __init__(self, f):
        self.f = f

    def check(self, vc, st, v):
        self.f(vc, st, v)


# ---------------------------------------------------------------- specification functions
def clamped(st, priv):
    """clamped low half of SHA3-512(private key), as an integer"""
    h = pa(hash_atom(st, 'sha3-512', priv.ps))
    return padd(psub(pmod(h, 1 << 254, st.b), pmod(h, 8, st.b)), pc(1 << 254))


def hashmod(st, ps):
    """SHA3-512 of the pieces as an integer modulo the group order"""
    return pmod(pa(hash_atom(st, 'sha3-512', ps)), L25519, st.b)


def epiece(ivs):
    return (('e', tuple(ivs)),)


def sign_spec(st, kp, msg):
    """(encoding of R, S)"""
    hb = le_bytes_top(st, pa(hash_atom(st, 'sha3-512', kp.priv.ps)), 64)
    r = hashmod(st, epiece(hb[32:]) + tuple(msg.ps))
    R = enc_value(st, B.scale(r))
    h = hashmod(st, epiece(le_bytes_top(st, R, 32)) + tuple(kp.pub.ps) + tuple(msg.ps))
    S = pmod(padd(pmul(h, clamped(st, kp.priv)), r), L25519, st.b)
    return R, S


def decode_spec(V):
    """(formula, point)"""
    return decodable(V)


def verify_spec(st, pub, msg, R, S):
    """cases of Verify for a 32 byte key and 32 byte parts"""
    h = hashmod(st, tuple(R.ps) + tuple(pub.ps) + tuple(msg.ps))
    good, A = decode_spec(st.simp(pub.V))
    eq = lambda: eq0(psub(enc_value(st, B.scale(S.V) - A.scale(h)), R.V))
    F = [Case(le0(S.V), [RBOOL(FALSE)]), Case(le0(psub(pc(L25519), S.V)), [RBOOL(FALSE)]),
         Case(eq0(pub.V), [RBOOL(FALSE)]), Case(fnot(good), [RBOOL(FALSE)]),
         Case(TRUE, [RBOOL(eq())])]
    return F


def xor_bytes(a, b):
    return [xor_atom(x.p, y.p) for x, y in zip(a, b)]


def shared_key(st, priv, pubV, salt):
    """(formula under which the key exists, pieces of the key)"""
    good, A = decode_spec(st.simp(pubV))
    e = le_bytes_top(st, enc_value(st, A.scale(clamped(st, priv))), 32)
    h = pa(hash_atom(st, 'sha3-256', epiece(xor_bytes(e, salt))))
    return good, epiece(le_bytes_top(st, h, 32))


def seed_bytes(st, rid, pos, n):
    return models.stream_bytes(st, rid, pos, n)


def read_failed(st):
    return any(e[0] == 'readerr' for e in st.log)


def reads(st):
    """(reader, bytes) consumed"""
    out = {}
    for e in st.log:
        if e[0] == 'read':
            out[e[1]] = out.get(e[1], 0) + e[2]
        else:
            out[e[1]] = None
    return out


NILERR = [RNIL(), RERR()]


def errcase():
    return [Case(TRUE, NILERR)]


def concat(*ps):
    return rope_norm(sum((tuple(p) for p in ps), ())).ps


# ---------------------------------------------------------------- contracts
def build(cx):
    P = cx.P
    out = []

    def c(name, args, post, **kw):
        kw.setdefault('overflow', False)
        kw.setdefault('clients', False)
        out.append(Contract(name % P, args, post, **kw))

    one = lambda *r, **k: [Case(TRUE, list(r), **k)]
    # --- hashes
    ML = [('every length', BYTES('msg')), ('nil', BYTES('msg', 'nil')), ('32 bytes', BYTES('msg', 32))]
    for fn, h in (('HashesSha_256', 'sha-256'), ('HashesKeccak_256', 'keccak-256'), ('HashesSha3_256', 'sha3-256'),
                  ('HashesRipemd160', 'ripemd-160')):
        c('%s' + fn, [BYTES('msg')],
          lambda st, m, h=h: one(RBYTES(pa(hash_atom(st, h, m.ps)), models.HASHES[h]), RNIL()),
          variants=[(l, [s]) for l, s in ML])

    class ARGS(Shape):
        def __init__(self, shapes):
            self.shapes = shapes

        def make(self, cx, st):
            ms = [s.make(cx, st) for s in self.shapes]
            if not ms:
                return NILSLICE, []
            o = new_obj()
            st.heap[o] = Ar([m[0] for m in ms])
            n = len(ms)
            return Slice(o, (), Z0, ic(n), ic(n)), [m[1] for m in ms]
    class ARGSN(Shape):
        """any number of byte strings"""
        def make(self, cx, st):
            if getattr(cx, 'length', None) is not None:
                n, cx.length = cx.length, None
                try:
                    return ARGS([BYTES('in%d' % i) for i in range(n)]).make(cx, st)
                finally:
                    cx.length = n
            every_length(cx)
            pool = [new_obj() for _ in range(12)]
            o = new_obj()
            st.heap[o] = SymAr('inputs', pool)
            n = K.var('len(inputs)', 0, 1 << 40)
            ln = catlen('inputs', pa(n))
            ps = (('s', ('cat', 'inputs'), Z0, ln),)
            return Slice(o, (), Z0, iatom(n), iatom(n)), [BytesParam(None, ps, ln, None)]
    hv = [('every number of arguments', [ARGSN()])]
    hv += [('%d arguments' % n, [ARGS([BYTES('in%d' % i) for i in range(n)])]) for n in range(7)]
    hv.append(('nil and empty arguments', [ARGS([BYTES('in0', 'nil'), BYTES('in1'), BYTES('in2', 0), BYTES('in3', 'nil')])]))
    c('%sHashesSha3_512', [ARGS([])],
      lambda st, ms: one(RBYTES(pa(hash_atom(st, 'sha3-512', concat(*[m.ps for m in ms]))), 64), RNIL()), variants=hv, looprule=True)

    # --- keys
    c('%sPrepareForScalarMultiply', [PRIV()], lambda st, k: one(RENC(V=clamped(st, k))),
      variants=[('every length', [PRIV()]), ('nil', [PRIV(n='nil')])])
    pubof = lambda st, k: RPTR('PublicKey', Raw=RBYTES(enc_value(st, B.scale(clamped(st, k))), 32))
    c('(*%sEd25519KeyGenerator).DerivePublicKey', [ANY(), PRIV()], lambda st, g, k: one(pubof(st, k)),
      variants=[('every length', [ANY(), PRIV()]), ('nil', [ANY(), PRIV(n='nil')])])
    c('%sNewPrivateKey', [BYTES('raw')], lambda st, b: one(RPTR('PrivateKey', Raw=RSAME(b.slice))))
    c('%sNewPublicKey', [BYTES('raw')], lambda st, b: one(RPTR('PublicKey', Raw=RSAME(b.slice))))
    c('(*%sEd25519KeyAnalyzer).IsKeyCompressed', [ANY(), PUB(n=None)],
      lambda st, a, p: one(RBOOL(eq0(psub(p.n, pc(32))))))

    def newkp(st, priv, pub, eng):
        if pub is None:
            return one(RPTR('KeyPair', PrivateKey=RSAME(priv.val), PublicKey=pubof(st, priv)), RNIL())
        return [Case(eq0(psub(pub.n, pc(32))), [RPTR('KeyPair', PrivateKey=RSAME(priv.val), PublicKey=RSAME(pub.val)), RNIL()]),
                Case(TRUE, NILERR)]

    class KEEP(Shape):
        """shape whose parameter remembers the argument"""
        def __init__(self, s):
            self.s = s

        def make(self, cx, st):
            v, p = self.s.make(cx, st)
            p.val = v
            return v, p
    engines = [('default engine', VAL(NIL))]
    c('%sNewKeyPair', [KEEP(PRIV()), VAL(NIL), VAL(NIL)], newkp,
      variants=[('derived', [KEEP(PRIV()), VAL(NIL), VAL(NIL)]),
                ('given public key', [KEEP(PRIV()), KEEP(PUB(n=None)), VAL(NIL)]),
                ('given public key of 32 bytes', [KEEP(PRIV()), KEEP(PUB(n=32)), VAL(NIL)])])
    c('(*%sKeyPair).HasPrivateKey', [KP()], lambda st, k: one(RBOOL(TRUE if k.priv is not None else FALSE)),
      variants=[('with', [KP()]), ('without', [KP(nopriv=True)])])

    def genpost(rid_of):
        def post(st, *ps):
            rid = rid_of(ps)
            if read_failed(st):
                return one(RNIL(), RERR())
            bs = seed_bytes(st, rid, 0, 32)
            k = BytesParam(None, epiece(bs), pc(32), le_value(bs))

            def chk(vc, st, args, ps_):
                vc.cond('reads exactly 32 bytes of the source', reads(st) == {rid: 32}, 'reads %r' % reads(st))
            return one(RPTR('KeyPair', PrivateKey=RPTR('PrivateKey', Raw=RPIECES(k.ps)), PublicKey=pubof(st, k)), RNIL(),
                       check=chk)
        return post
    c('(*%sEd25519KeyGenerator).GenerateKeyPair', [WRAP('Ed25519KeyGenerator', 'seed', READER())], genpost(lambda ps: ps[0]))
    c('%sNewRandomKeyPair', [], genpost(lambda ps: 'crypto/rand'))
    c('%sNewEd25519KeyGenerator', [READER()], lambda st, r: one(RPTR('Ed25519KeyGenerator', seed=RREF(reader_is(r or 'crypto/rand')))),
      variants=[('given source', [READER()]), ('no source', [VAL(NIL)])])

    # --- signatures
    def signpost(st, kp, msg):
        if kp.priv is None:
            return one(RNIL(), RERR())
        R, S = sign_spec(st, kp, msg)
        return [Case(eq0(S), NILERR),
                Case(TRUE, [RPTR('Signature', R=RBYTES(R, 32), S=RBYTES(S, 32)), RNIL()])]
    dsa = lambda kp: WRAP('Ed25519DsaSigner', 'KeyPair', kp)
    c('(*%sEd25519DsaSigner).Sign', [dsa(KP()), BYTES('msg')], signpost,
      variants=[('every message', [dsa(KP()), BYTES('msg')]), ('nil message', [dsa(KP()), BYTES('msg', 'nil')]),
                ('public key of every length', [dsa(KP(pub=None)), BYTES('msg')]),
                ('no private key', [dsa(KP(nopriv=True)), BYTES('msg')])])

    def verifypost(st, kp, msg, sig):
        R, S = sig
        if kp.pub.V is None:
            # no 32 byte key: never verifies
            if st.decide(eq0(psub(kp.pub.n, pc(32)))) is not False:
                return [Case(eq0(psub(kp.pub.n, pc(32))), [RANY()]), Case(TRUE, [RBOOL(FALSE)])]
            return one(RBOOL(FALSE))
        return verify_spec(st, kp.pub, msg, R, S)
    c('(*%sEd25519DsaSigner).Verify', [dsa(KP()), BYTES('msg'), SIGN()], verifypost,
      variants=[('every message', [dsa(KP()), BYTES('msg'), SIGN()]),
                ('nil message', [dsa(KP()), BYTES('msg', 'nil'), SIGN()]),
                ('no private key', [dsa(KP(nopriv=True)), BYTES('msg'), SIGN()]),
                ('derived key', [dsa(KP(pub='derived')), BYTES('msg'), SIGN()])])

    def canonpost(st, kp, sig):
        S = sig[1]
        V = S.V if S.V is not None else pa(K.func('le', pieces_key(st, S.ps), 0, None))
        return one(RBOOL(fand(fnot(le0(V)), le0(padd(psub(V, pc(L25519)), pc(1))))))
    c('(*%sEd25519DsaSigner).IsCanonicalSignature', [dsa(KP()), SIGN()], canonpost,
      variants=[('32 bytes', [dsa(KP()), SIGN()]), ('every length', [dsa(KP()), SIGN(None, None)]),
                ('nil', [dsa(KP()), SIGN('nil', 'nil')])])

    def makecanon(st, kp, sig):
        R, S = sig
        return one(RPTR('Signature', R=RSAMEBYTES(R), S=RENCBYTES(pmod(S.V, L25519, st.b))), RNIL())
    c('(*%sEd25519DsaSigner).MakeSignatureCanonical', [dsa(KP()), SIGN()], makecanon)

    class SIGNER(Shape):
        """signer for a key pair, made with the default engine or a given one"""
        def __init__(self, kp, engine=False):
            self.kp, self.engine = kp, engine

        def make(self, cx, st):
            k, pk = self.kp.make(cx, st)
            e = NIL
            if self.engine:
                e = Iface('*' + P + 'Ed25519SeedCryptoEngine',
                          cx.alloc(st, struct(cx, 'Ed25519SeedCryptoEngine', seed=READER().make(cx, st)[0])))
            return made_by(cx, st, P + 'NewSignerFromKeyPair', k, e), pk
    sgv = lambda *a: [('default engine', [SIGNER(KP())] + list(a)), ('given engine', [SIGNER(KP(), True)] + list(a))]
    c('(*%sSigner).Sign', [SIGNER(KP()), BYTES('msg')], signpost,
      variants=sgv(BYTES('msg')) + [('no private key', [SIGNER(KP(nopriv=True)), BYTES('msg')])])
    c('(*%sSigner).Verify', [SIGNER(KP()), BYTES('msg'), SIGN()], verifypost,
      variants=sgv(BYTES('msg'), SIGN()) + [('no private key', [SIGNER(KP(nopriv=True)), BYTES('msg'), SIGN()])])
    c('(*%sSigner).IsCanonicalSignature', [SIGNER(KP()), SIGN()], canonpost, variants=sgv(SIGN()))
    c('(*%sSigner).MakeSignatureCanonical', [SIGNER(KP()), SIGN()], makecanon, variants=sgv(SIGN()))

    # --- encoded elements
    def newenc(typ, sizes):
        def post(st, b):
            out = [Case(eq0(psub(b.n, pc(n))), [RPTR(typ, Raw=RPIECES(b.ps, False)), RNIL()]) for n in sizes]
            return out + [Case(TRUE, NILERR if len(sizes) == 1 else [RANY(), RANY()])]
        return post
    for typ, sizes in (('Ed25519EncodedGroupElement', (32,)), ('Ed25519EncodedFieldElement', (32, 64))):
        c('%sNew' + typ, [BYTES('raw')], newenc(typ, sizes),
          variants=[('every length', [BYTES('raw')]), ('nil', [BYTES('raw', 'nil')])] +
          [('%d bytes' % n, [BYTES('raw', n)]) for n in sizes])

    def newsig(st, r, s):
        return [Case(fand(eq0(psub(r.n, pc(32))), eq0(psub(s.n, pc(32)))),
                     [RPTR('Signature', R=RPIECES(r.ps, False), S=RPIECES(s.ps, False)), RNIL()]), Case(TRUE, NILERR)]
    c('%sNewSignature', [BYTES('r'), BYTES('s')], newsig,
      variants=[('every length', [BYTES('r'), BYTES('s')]), ('32 bytes', [BYTES('r', 32), BYTES('s', 32)]),
                ('nil', [BYTES('r', 'nil'), BYTES('s', 32)])])

    def newsigb(st, b):
        return [Case(eq0(psub(b.n, pc(64))),
                     [RPTR('Signature', R=RPIECES(rope_slice(st, b.ps, Z0, pc(32)), False),
                           S=RPIECES(rope_slice(st, b.ps, pc(32), pc(32)), False)), RNIL()] if
                     st.decide(eq0(psub(b.n, pc(64)))) is True else [RANY(), RANY()]),
                Case(TRUE, NILERR)]
    c('%sNewSignatureFromBytes', [BYTES('b')], newsigb,
      variants=[('every length', [BYTES('b')]), ('64 bytes', [BYTES('b', 64)]), ('nil', [BYTES('b', 'nil')])])

    def sigbig(st, r, s):
        if r is None or s is None:
            return errcase()
        ok = TRUE
        for v in (r, s):
            ok = fand(ok, fand(le0(pscale(v, -1)), le0(psub(v, pc(2**31 - 1)))))
        return [Case(ok, [RPTR('Signature', R=RBYTES(r, 32), S=RBYTES(s, 32)), RNIL()]), Case(TRUE, NILERR)]
    c('%sNewSignatureFromBigInt', [BIGV('rInt'), BIGV('sInt')], sigbig,
      variants=[('every integer', [BIGV('rInt'), BIGV('sInt')]), ('nil r', [BIGV('rInt', nil=True), BIGV('sInt')]),
                ('nil s', [BIGV('rInt'), BIGV('sInt', nil=True)])])
    for g, i in (('GetR', 0), ('GetS', 1)):
        c('(*%sSignature).' + g, [SIGN()], lambda st, sg, i=i: one(RBIG(p=sg[i].V)))
    c('(*%sSignature).Bytes', [SIGN()], lambda st, sg: one(RPIECES(concat(sg[0].ps, sg[1].ps))),
      variants=[('32 bytes', [SIGN()]), ('every length', [SIGN(None, None)]), ('one backing array', [SIGN2()])])
    hexof = lambda st, ps: Str(key=('hex', pieces_key(st, ps)), ln=iatom(K.fresh('sl', 0, None)))
    c('(*%sSignature).String', [SIGN()], lambda st, sg: one(RSTR(hexof(st, concat(sg[0].ps, sg[1].ps)))),
      variants=[('32 bytes', [SIGN()])])
    c('(*%sPrivateKey).String', [PRIV()], lambda st, k: one(RSTR(hexof(st, k.ps))),
      variants=[('32 bytes', [PRIV(n=32)])])
    c('(*%sPublicKey).String', [PUB(n=32)],
      lambda st, k: one(RSTR(Str(key=('upper', ('hex', pieces_key(st, k.ps))), ln=ic(64)))))

    def hexkey(typ):
        def post(st, s):
            ln = str_len(s)
            odd = fnot(eq0(pmod(st.simp(ln.p), 2, st.b)))
            d = st.decide(odd)
            if d is None:
                return [Case(odd, [RANY(), RANY()]), Case(TRUE, [RANY(), RANY()])]
            k = str_cat(Str(c='0'), s) if d else s
            n = fdiv(st.simp(str_len(k).p), 2, st.b)
            good = fand(('b', ('ishex', str_key(k))), eq0(psub(n, pc(32))))
            return [Case(good, [RPTR(typ, Raw=RPIECES((('s', ('unhex', str_key(k)), Z0, n),))), RNIL()]), Case(TRUE, NILERR)]
        return post

    def hexkeyc(typ):
        def post(st, b):
            try:
                v = bytes.fromhex('0' + b if len(b) % 2 else b)
            except ValueError:
                return errcase()
            if len(v) != 32:
                return errcase()
            return one(RPTR(typ, Raw=RPIECES(epiece([ic(x) for x in v]))), RNIL())
        return post
    for fn, typ in (('NewPrivateKeyfromHexString', 'PrivateKey'), ('NewPublicKeyfromHex', 'PublicKey')):
        c('%s' + fn, [STRING('text')],
          lambda st, s, typ=typ: (hexkeyc(typ) if isinstance(s, str) else hexkey(typ))(st, s),
          variants=[('every text', [STRING('text')]), ('empty text', [STRING('text', '')]),
                    ('63 digits', [STRING('text', 'aB3' * 21)]), ('64 digits', [STRING('text', 'f0' * 32)]),
                    ('65 digits', [STRING('text', '0' * 65)]), ('not hex', [STRING('text', 'g' * 64)])])
    c('%sNewPrivateKeyFromBigInt', [BIGV('v', 0)], lambda st, v: one(RPTR('PrivateKey')),
      variants=[('from 0 to 2^256 - 1', [BIGV('v', 0, (1 << 256) - 1)])])

    # --- block cipher
    class CIPHER(Shape):
        """block cipher made by the constructor for two key pairs"""
        def __init__(self, s, r, seed=None, engine=None):
            # engine: None (made by NewEd25519BlockCipher), False (by NewBlockCipher without engine), True (with engine)
            self.s, self.r, self.seed, self.engine = s, r, seed or READER(), engine

        def make(self, cx, st):
            s, ps = self.s.make(cx, st)
            r, pr = self.r.make(cx, st)
            d, pd = self.seed.make(cx, st)
            if self.engine is None:
                return made_by(cx, st, P + 'NewEd25519BlockCipher', s, r, d), (ps, pr, pd or 'crypto/rand')
            e = NIL
            if self.engine:
                e = Iface('*' + P + 'Ed25519SeedCryptoEngine', cx.alloc(st, struct(cx, 'Ed25519SeedCryptoEngine', seed=d)))
            v = made_by(cx, st, P + 'NewBlockCipher', s, r, e)
            if not isinstance(v, Iface):
                raise Unsupported('NewBlockCipher: %r' % (v,))
            return v.v, (ps, pr, pd if self.engine else 'crypto/rand')
    sender, recip = KP('s.'), KP('r.')

    def encpost(st, ci, msg):
        s, r, rid = ci
        if read_failed(st):
            return one(RNIL(), RERR())
        salt, iv = seed_bytes(st, rid, 0, 32), seed_bytes(st, rid, 32, 16)
        good, key = shared_key(st, s.priv, r.pub.V, salt)
        n = st.simp(padd(pc(16), pscale(pmod(st.simp(msg.n), 16, st.b), -1)))
        nc = n.const()

        def chk(vc, st, args, ps_):
            vc.cond('reads exactly 48 bytes of the source', reads(st) == {rid: 48}, 'reads %r' % reads(st))
        if nc is None:
            lo, hi = st.b.ival(n)
            cs = [Case(eq0(psub(n, pc(i))), [RANY(), RANY()]) for i in range(max(1, int(lo)), min(16, int(hi)) + 1)]
            return [Case(fnot(good), NILERR)] + cs
        plain = concat(msg.ps, epiece([ic(nc)] * nc))
        sk = ('enc', pieces_key(st, key), pieces_key(st, epiece(iv)), pieces_key(st, plain))
        ct = ('s', sk, Z0, st.simp(padd(msg.n, n)))
        return [Case(fnot(good), NILERR),
                Case(TRUE, [RPIECES(concat(epiece(salt), epiece(iv), (ct,))), RNIL()], check=chk)]
    c('(*%sEd25519BlockCipher).Encrypt', [CIPHER(sender, recip), BYTES('msg')], encpost,
      variants=[('every message', [CIPHER(sender, recip), BYTES('msg')]),
                ('empty message', [CIPHER(sender, recip), BYTES('msg', 0)]),
                ('nil message', [CIPHER(sender, recip), BYTES('msg', 'nil')]),
                ('recipient without private key', [CIPHER(sender, KP('r.', nopriv=True)), BYTES('msg')]),
                ('system source', [CIPHER(sender, recip, VAL(NIL)), BYTES('msg')]),
                ('default engine', [CIPHER(sender, recip, engine=False), BYTES('msg')]),
                ('given engine', [CIPHER(sender, recip, engine=True), BYTES('msg')])])

    def decpost(st, ci, inp):
        s, r, rid = ci
        short = le0(psub(padd(st.simp(inp.n), pc(1)), pc(64)))
        d = st.decide(short)
        if d is not False:
            return [Case(short, NILERR), Case(TRUE, [RANY(), RANY()])]
        part = lambda a, b: rope_slice(st, inp.ps, pc(a), psub(b, pc(a)) if isinstance(b, Poly) else pc(b - a))
        salt = pieces_elems(part(0, 32))
        good, key = shared_key(st, r.priv, s.pub.V, salt)
        n = psub(st.simp(inp.n), pc(48))
        whole = eq0(pmod(n, 16, st.b))
        out = [Case(fnot(good), NILERR), Case(fnot(whole), NILERR)]
        ct = rope_slice(st, inp.ps, pc(48), n)
        sk = ('dec', pieces_key(st, key), pieces_key(st, part(32, 48)), pieces_key(st, ct))
        byte = lambda i: seq_byte(sk, st.simp(psub(n, pc(i)))).p
        last = st.simp(byte(1))
        for k in range(1, 17):
            f = eq0(psub(last, pc(k)))
            for i in range(2, k + 1):
                f = fand(f, eq0(psub(st.simp(byte(i)), pc(k))))
            out.append(Case(f, [RPIECES((('s', sk, Z0, psub(n, pc(k))),)), RNIL()]))
        return out + errcase()
    c('(*%sEd25519BlockCipher).Decrypt', [CIPHER(sender, recip), BYTES('input')], decpost,
      variants=[('every input', [CIPHER(sender, recip), BYTES('input')]),
                ('nil input', [CIPHER(sender, recip), BYTES('input', 'nil')]),
                ('sender without private key', [CIPHER(KP('s.', nopriv=True), recip), BYTES('input')]),
                ('default engine', [CIPHER(sender, recip, engine=False), BYTES('input')])])

    def sharedpost(st, ci, priv, pub, salt):
        good, key = shared_key(st, priv, pub.V, pieces_elems(salt.ps))
        return [Case(good, [RPIECES(key), RNIL()]), Case(TRUE, NILERR)]
    c('(*%sEd25519BlockCipher).GetSharedKey', [CIPHER(sender, recip), PRIV('k'), PUB('p'), BYTES('salt', 32)], sharedpost)

    # --- the dependency go-xpx-utils: what its models say is shown on its source
    U = 'github.com/proximax-storage/go-xpx-utils.'
    out.append(Contract(U + 'BytesToBigInteger', [BYTES('b', 32)], lambda st, b: one(RBIG(b.V if b.V is not None else Z0)),
                        overflow=False, variants=[('%s bytes' % n, [BYTES('b', n)]) for n in ['nil'] + list(range(65))]))

    def tobytes(st, v, n):
        neg = le0(padd(v, pc(1)))
        return [Case(neg, [RBYTES(pmod(pscale(v, -1), 1 << 256, st.b), 32)]), Case(TRUE, [RBYTES(pmod(v, 1 << 256, st.b), 32)])]
    out.append(DepContract(U + 'BigIntToByteArray', [BIGV('v'), INT(32)], tobytes, overflow=False,
                           variants=[('32 bytes', [BIGV('v'), INT(32)])]))
    return {ct.name: ct for ct in out}


class DepContract(Contract):
    def verify(self, ex):
        ex.split_bytes = True
        try:
            return Contract.verify(self, ex)
        finally:
            ex.split_bytes = False


class INT(Shape):
    def __init__(self, n):
        self.n = n

    def make(self, cx, st):
        return ic(self.n), self.n


class SIGN2(Shape):
    """signature whose parts are the two halves of one array with spare capacity"""
    def make(self, cx, st):
        p = mk_bytes(cx, st, [iatom(K.var('sig[%d]' % i, 0, 255)) for i in range(64)], 64)
        o = p.slice.obj
        es = p.ps[0][1]
        r = Slice(o, (), Z0, ic(32), ic(128))
        s = Slice(o, (), pc(32), ic(32), ic(96))
        return cx.alloc(st, struct(cx, 'Signature', R=r, S=s)), \
            (BytesParam(r, epiece(es[:32]), pc(32), le_value(es[:32])), BytesParam(s, epiece(es[32:]), pc(32), le_value(es[32:])))


class RSAMEBYTES(RPIECES):
    def __init__(self, p):
        RPIECES.__init__(self, p.ps, False)


class RENCBYTES(RBYTES):
    def __init__(self, V):
        RBYTES.__init__(self, V, 32)


def reader_is(rid):
    def f(vc, st, v):
        vc.cond('random source', isinstance(v, Iface) and v.t == 'reader' and v.v.data == rid, '%r' % (v,))
    return f
