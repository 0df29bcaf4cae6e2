"""Client lemmas: short programs over the API, verified for all inputs against the real code below them."""
import kernel as kn
from kernel import K, Poly, pc, pa, padd, psub, pscale, pmul, pmod, P25519, L25519, D25519
from state import *
from exec import *
from spec import *
import models, points, api
from api import (BYTES, PRIV, PUB, KP, SIGN, READER, B, Z0, epiece, concat, get_field, pieces_of_param)


class Lemma:
    """fn(L): a straight-line program; L.call branches over the outcomes"""
    def __init__(self, name, variants):
        self.name, self.variants = 'lemma: ' + name, variants

    def verify(self, ex):
        out = []
        cx = ex.cx
        for label, fn in self.variants:
            old, cx.every, cx.length = ex.deadline, False, None
            try:
                r = self.verify1(ex, label, fn)
                why = [o.detail for o in r if not o.ok and o.name.endswith('verified')]
                if cx.every and why:
                    # byte strings of every length are out of reach: some lengths stand in
                    r = []
                    for n in LENGTHS:
                        ex.deadline, cx.length = old, n
                        for o in self.verify1(ex, '%s: length %d' % (label, n) if label else 'length %d' % n, fn):
                            if o.ok:
                                o.backend = 'bounded execution'
                                o.detail = 'no proof for every length: %s' % why[0]
                            r.append(o)
            finally:
                ex.deadline, cx.length = old, None
            out.extend(r)
        return out

    def verify1(self, ex, label, fn):
        vc = VC(ex.cx, self.name, label + ': ' if label else '')
        vc.mark = obj_mark()
        ex.stats.overflow = []
        ex.overflow_ok = True
        ex.cur = self.name
        try:
            # one execution per way through the functions that have several outcomes
            script, runs = [], 0
            while script is not None:
                L = Prog(ex, vc, script)
                fn(L, State(ex.prog.base))
                script = L.next_script()
                runs += 1
                if runs > 48:
                    raise Unsupported('too many executions of the lemma')
            if not vc.obls:
                vc.fail('non-vacuous', 'no execution reached a check')
        except Unsupported as e:
            vc.fail('verified', 'not within reach of the verifier: %s' % e)
        except NoMatch as e:
            vc.fail('verified', 'result of unexpected form: %s' % e)
        finally:
            ex.cur = None
            ex.overflow_ok = False
        return vc.obls


class Prog:
    def __init__(self, ex, vc, script=()):
        self.ex, self.cx, self.vc, self.P = ex, ex.cx, vc, ex.prog.pkg + '.'
        self.script, self.made = list(script), []      # choices to make; (choice, number of alternatives) made

    def next_script(self):
        m = list(self.made)
        while m and m[-1][0] + 1 >= m[-1][1]:
            m.pop()
        return [a for a, _ in m[:-1]] + [m[-1][0] + 1] if m else None

    def name(self, n):
        return n % self.P if '%s' in n else n if n in self.ex.prog.funcs else self.P + n

    def call(self, st, fname, *args):
        """outcomes that return, as (state, results); a panic is a failure"""
        self.ex.looprule = bool(getattr(self.ex.cx, 'every', None))
        try:
            outs = self.ex.run(self.name(fname), list(args), st.copy())
        finally:
            self.ex.looprule = False
        res = []
        for o in outs:
            if o.kind == 'panic':
                self.vc.trace = o.st.trace
                self.vc.fail('%s does not panic' % fname.split('.')[-1], 'panic: %r' % (o.val,))
                continue
            res.append((o.st, o.val))
        return res

    def one(self, st, fname, *args):
        r = self.call(st, fname, *args)
        if not r:
            raise Unsupported('%s has no outcome' % fname)
        if len(r) == 1:
            return r[0]
        # every outcome is taken in turn by another execution of the lemma
        i = self.script[len(self.made)] if len(self.made) < len(self.script) else 0
        if i >= len(r):
            raise Unsupported('%s has varying outcomes' % fname)
        self.made.append((i, len(r)))
        return r[i]

    def split(self, st, f):
        """[(state, truth)]"""
        d = st.decide(f, 2)
        if d is not None:
            return [(st, d)]
        out = []
        for g, b in ((f, True), (fnot(f), False)):
            s = st.copy()
            if s.assume(g):
                out.append((s, b))
        return out

    def oks(self, st, fname, *args):
        """outcomes of a function with an error result whose error is nil"""
        return [(s, v) for s, v in self.call(st, fname, *args) if is_nil(v[-1])]

    def iface(self, st, r, m, *args):
        """method call on an interface value"""
        if not isinstance(r, Iface):
            raise Unsupported('not an interface: %r' % (r,))
        tab = self.ex.prog.methods.get(r.t) or {}
        return self.call(st, tab[m], r.v, *args)

    def as_iface(self, p, typ):
        """interface value holding a pointer to the type"""
        return Iface('*' + self.P + typ, p)

    def slice_of(self, st, vs):
        o = new_obj()
        st.heap[o] = Ar(list(vs))
        return Slice(o, (), Z0, ic(len(vs)), ic(len(vs)))

    def field(self, st, v, typ, f):
        return get_field(self.cx, st, v, typ, f)

    def truth(self, st, v, name):
        self.vc.trace = st.trace
        RBOOLP(TRUE, name).check(self.vc, st, v)


class RBOOLP:
    def __init__(self, f, name):
        self.f, self.name = f, name

    def check(self, vc, st, v):
        pre = vc.prefix
        vc.prefix = pre + self.name + ' '
        RBOOL(self.f).check(vc, st, v)
        vc.prefix = pre


def is_nil(v):
    return v is NIL or (isinstance(v, Iface) and v.t is None) or v is None


# ---------------------------------------------------------------- C01
def sign_then_verify(msgn, public_only=False, keylen=32):
    def go(L, st):
        pv, pp = PRIV('priv', keylen).make(L.cx, st)
        m, mp = BYTES('msg', msgn).make(L.cx, st)
        for st, (kp, err) in L.call(st, 'NewKeyPair', pv, NIL, NIL):
            L.vc.cond('key pair is built', is_nil(err), '%r' % (err,))
            st, (sg,) = L.one(st, 'NewSignerFromKeyPair', kp, NIL)
            vf = sg
            if public_only:
                pub = L.field(st, kp, 'KeyPair', 'PublicKey')
                st, (kp2, err) = L.one(st, 'NewKeyPair', NIL, pub, NIL)
                st, (vf,) = L.one(st, 'NewSignerFromKeyPair', kp2, NIL)
            for s, (sig, err) in L.call(st, '(*%sSigner).Sign', sg, m):
                if not is_nil(err):
                    # declined: only if the scalar part is zero
                    kpp = KeyPairOf(L, s, pp, kp)
                    R, S = api.sign_spec(s, kpp, mp)
                    L.vc.trace = s.trace
                    L.vc.form('signing declines only if S = 0', s, eq0(S))
                    continue
                for s2, (ok,) in L.call(s, '(*%sSigner).Verify', vf, m, sig):
                    L.truth(s2, ok, 'the signature verifies:')
                for s2, (ok,) in L.call(s, '(*%sSigner).IsCanonicalSignature', vf, sig):
                    L.truth(s2, ok, 'the signature is canonical:')
    return go


class KeyPairOf:
    def __init__(self, L, st, privp, kp):
        self.priv = privp
        pub = L.field(st, kp, 'KeyPair', 'PublicKey')
        raw = L.field(st, pub, 'PublicKey', 'Raw')
        self.pub = pieces_of_param(L.cx, st, raw)


# ---------------------------------------------------------------- C11
def round_trip(msgn, a_only=False, b_only=False, same=False):
    def go(L, st):
        pa_, pap = PRIV('a').make(L.cx, st)
        m, mp = BYTES('msg', msgn).make(L.cx, st)
        d, rid = READER().make(L.cx, st)
        st, (ka, e1) = L.one(st, 'NewKeyPair', pa_, NIL, NIL)
        if same:
            kb = ka
        else:
            pb_, pbp = PRIV('b').make(L.cx, st)
            st, (kb, e2) = L.one(st, 'NewKeyPair', pb_, NIL, NIL)
        pubs = {}
        for k, kp in (('a', ka), ('b', kb)):
            st, (pubs[k], e3) = L.one(st, 'NewKeyPair', NIL, L.field(st, kp, 'KeyPair', 'PublicKey'), NIL)
        st, (c1,) = L.one(st, 'NewEd25519BlockCipher', ka, pubs['b'] if b_only else kb, d)
        st, (c2,) = L.one(st, 'NewBlockCipher', pubs['a'] if a_only else ka, kb, NIL)
        for s, (ct, err) in L.call(st, '(*%sEd25519BlockCipher).Encrypt', c1, m):
            L.vc.trace = s.trace
            if not is_nil(err):
                L.vc.cond('encryption fails only if the source fails', api.read_failed(s), 'error without a read error')
                continue
            for s2, (pt, err) in L.iface(s, c2, 'Decrypt', ct):
                L.vc.trace = s2.trace
                if not is_nil(err):
                    L.vc.fail('decryption succeeds', 'error %r' % (err,))
                    continue
                L.vc.ok('decryption succeeds')
                api.RPIECES(mp.ps, False).check(L.vc, s2, pt)
    return go


def shared_symmetric(L, st):
    pa_, pap = PRIV('a').make(L.cx, st)
    pb_, pbp = PRIV('b').make(L.cx, st)
    salt, sp = BYTES('salt', 32).make(L.cx, st)
    st, (ka, e) = L.one(st, 'NewKeyPair', pa_, NIL, NIL)
    st, (kb, e) = L.one(st, 'NewKeyPair', pb_, NIL, NIL)
    st, (ci,) = L.one(st, 'NewEd25519BlockCipher', ka, kb, NIL)
    pk = lambda kp: L.field(st, kp, 'KeyPair', 'PublicKey')
    for s, (x, err) in L.call(st, '(*%sEd25519BlockCipher).GetSharedKey', ci, pa_, pk(kb), salt):
        L.vc.cond('first side succeeds', is_nil(err))
        for s2, (y, err) in L.call(s, '(*%sEd25519BlockCipher).GetSharedKey', ci, pb_, pk(ka), salt):
            L.vc.cond('second side succeeds', is_nil(err))
            L.vc.trace = s2.trace
            api.RPIECES(L.ex.slice_content(s2, x), False).check(L.vc, s2, y)


# ---------------------------------------------------------------- C13, C19: successive uses of one source
def two_encryptions(L, st):
    s_, sp = KP('s.').make(L.cx, st)
    r_, rp = KP('r.').make(L.cx, st)
    m, mp = BYTES('msg', 3).make(L.cx, st)
    d, rid = READER().make(L.cx, st)
    st, (ci,) = L.one(st, 'NewEd25519BlockCipher', s_, r_, d)
    enc = '(*%sEd25519BlockCipher).Encrypt'
    for s1, v1 in L.oks(st, enc, ci, m):
        for s2, v2 in L.oks(s1, enc, ci, m):
            L.vc.trace = s2.trace
            for v, pos, what in ((v1, 0, 'first'), (v2, 48, 'second')):
                head = rope_slice(s2, L.ex.slice_content(s2, v[0]), Z0, pc(48))
                L.vc.cond('%s salt and iv are the next 48 bytes' % what,
                          pieces_key(s2, head) == pieces_key(s2, epiece(api.seed_bytes(s2, rid, pos, 48))),
                          'header of the %s ciphertext is not the stream' % what)
            L.vc.cond('results share no memory', v1[0].obj != v2[0].obj)


def engine_cipher(L, st):
    """a cipher made through the engine uses the source of the engine"""
    s_, sp = KP('s.').make(L.cx, st)
    r_, rp = KP('r.').make(L.cx, st)
    m, mp = BYTES('msg', 3).make(L.cx, st)
    d, rid = READER().make(L.cx, st)
    eng = L.cx.alloc(st, api.struct(L.cx, 'Ed25519SeedCryptoEngine', seed=d))
    st, (ci,) = L.one(st, 'NewBlockCipher', s_, r_, L.as_iface(eng, 'Ed25519SeedCryptoEngine'))
    for s1, v1 in L.iface(st, ci, 'Encrypt', m):
        L.vc.trace = s1.trace
        if not is_nil(v1[1]):
            continue
        head = rope_slice(s1, L.ex.slice_content(s1, v1[0]), Z0, pc(48))
        L.vc.cond('salt and iv come from the source of the engine',
                  pieces_key(s1, head) == pieces_key(s1, epiece(api.seed_bytes(s1, rid, 0, 48))))


def check_pair(L, st, kp, bs, what):
    k = api.BytesParam(None, epiece(bs), pc(32), le_value(bs))
    priv = L.field(st, kp, 'KeyPair', 'PrivateKey')
    pub = L.field(st, kp, 'KeyPair', 'PublicKey')
    pre = L.vc.prefix
    L.vc.prefix = pre + what + ' private key: '
    api.RPIECES(k.ps, False).check(L.vc, st, L.field(st, priv, 'PrivateKey', 'Raw'))
    L.vc.prefix = pre + what + ' public key: '
    RBYTES(enc_value(st, B.scale(api.clamped(st, k))), 32).check(L.vc, st, L.field(st, pub, 'PublicKey', 'Raw'))
    L.vc.prefix = pre


def two_generated(through):
    def go(L, st):
        d, rid = READER().make(L.cx, st)
        if through == 'generator':
            st, (g,) = L.one(st, 'NewEd25519KeyGenerator', d)
            gen = lambda s: L.call(s, '(*%sEd25519KeyGenerator).GenerateKeyPair', g)
        else:
            eng = L.as_iface(L.cx.alloc(st, api.struct(L.cx, 'Ed25519SeedCryptoEngine', seed=d)), 'Ed25519SeedCryptoEngine')
            gen = lambda s: L.call(s, 'NewKeyPairByEngine', eng)
        for s1, v1 in gen(st):
            L.vc.trace = s1.trace
            if not is_nil(v1[1]):
                L.vc.cond('error only if the source fails', api.read_failed(s1) and v1[0] is NIL)
                continue
            for s2, v2 in gen(s1):
                L.vc.trace = s2.trace
                if not is_nil(v2[1]):
                    L.vc.cond('error only if the source fails', api.read_failed(s2) and v2[0] is NIL)
                    continue
                check_pair(L, s2, v1[0], api.seed_bytes(s2, rid, 0, 32), 'first')
                check_pair(L, s2, v2[0], api.seed_bytes(s2, rid, 32, 32), 'second')
                L.vc.cond('64 bytes are consumed', api.reads(s2) == {rid: 64}, '%r' % api.reads(s2))
    return go


# ---------------------------------------------------------------- C14
def sig_round_trip(L, st):
    sg, (r, s) = SIGN().make(L.cx, st)
    st, (b,) = L.one(st, '(*%sSignature).Bytes', sg)
    for s1, (s2_, err) in L.call(st, 'NewSignatureFromBytes', b):
        L.vc.trace = s1.trace
        L.vc.cond('serialised signatures parse', is_nil(err))
        api.RPIECES(r.ps, False).check(L.vc, s1, L.field(s1, s2_, 'Signature', 'R'))
        api.RPIECES(s.ps, False).check(L.vc, s1, L.field(s1, s2_, 'Signature', 'S'))
    st, (t,) = L.one(st, '(*%sSignature).String', sg)
    for o in models.MODELS['encoding/hex.DecodeString'](L.ex, st.copy(), [t], None):
        api.RPIECES(concat(r.ps, s.ps), False).check(L.vc, o.st, o.val[0])


def sig_ints(L, st):
    rv, rp = api.BIGV('r', 0, 2**31 - 1).make(L.cx, st)
    sv, sp = api.BIGV('s', 0, 2**31 - 1).make(L.cx, st)
    for s1, (sg, err) in L.call(st, 'NewSignatureFromBigInt', rv, sv):
        L.vc.trace = s1.trace
        L.vc.cond('integers from 0 to 2^31 - 1 are accepted', is_nil(err))
        for g, p in (('GetR', rp), ('GetS', sp)):
            s2, (v,) = L.one(s1, '(*%%sSignature).%s' % g, sg)
            RBIG(p=p).check(L.vc, s2, v)


def key_round_trip(typ, ctor, parse):
    def go(L, st):
        raw, p = BYTES('raw', 32).make(L.cx, st)
        st, (k,) = L.one(st, ctor, raw)
        st, (t,) = L.one(st, '(*%%s%s).String' % typ, k)
        for s1, (k2, err) in L.call(st, parse, t):
            L.vc.trace = s1.trace
            L.vc.cond('hex text of a key parses', is_nil(err))
            api.RPIECES(p.ps, False).check(L.vc, s1, L.field(s1, k2, typ, 'Raw'))
    return go


# ---------------------------------------------------------------- C15
def canonicalise_twice(L, st):
    kp, kpp = KP().make(L.cx, st)
    sg, (r, s) = SIGN().make(L.cx, st)
    st, (sn,) = L.one(st, 'NewSignerFromKeyPair', kp, NIL)
    mk, isc = '(*%sSigner).MakeSignatureCanonical', '(*%sSigner).IsCanonicalSignature'
    for s1, (c1, e1) in L.call(st, mk, sn, sg):
        L.vc.cond('never fails', is_nil(e1))
        for s2, (c2, e2) in L.call(s1, mk, sn, c1):
            L.vc.trace = s2.trace
            L.vc.cond('never fails the second time', is_nil(e2))
            m = pmod(s.V, L25519, s2.b)
            for c, what in ((c1, 'once'), (c2, 'twice')):
                pre = L.vc.prefix
                L.vc.prefix = pre + 'canonicalised %s: ' % what
                api.RPIECES(r.ps, False).check(L.vc, s2, L.field(s2, c, 'Signature', 'R'))
                RBYTES(m, 32).check(L.vc, s2, L.field(s2, c, 'Signature', 'S'))
                L.vc.prefix = pre
            for s3, (b,) in L.call(s2, isc, sn, c1):
                L.vc.trace = s3.trace
                RBOOLP(fnot(eq0(m)), 'canonical unless S mod L = 0:').check(L.vc, s3, b)


# ---------------------------------------------------------------- C18
def hash_twice(fn, h, n):
    def go(L, st):
        b, p = BYTES('msg').make(L.cx, st)
        c, q = BYTES('other').make(L.cx, st)
        args = (lambda v: [v]) if n == 1 else (lambda v: [L.slice_of(st, [v])])
        w, ln = models.hash_atom, models.HASHES[h]
        st, (r1, e1) = L.one(st, fn, *args(b))
        # the caller overwrites the first digest
        for i in range(ln):
            L.ex.store(st, Ptr(r1.obj, r1.path + (i,)), iatom(K.fresh('junk', 0, 255)))
        st, (r2, e2) = L.one(st, fn, *args(c))
        st, (r3, e3) = L.one(st, fn, *args(b))
        L.vc.cond('no error', is_nil(e1) and is_nil(e2) and is_nil(e3))
        RBYTES(pa(w(st, h, q.ps)), ln).check(L.vc, st, r2)
        RBYTES(pa(w(st, h, p.ps)), ln).check(L.vc, st, r3)
        L.vc.cond('digests share no memory', len({r1.obj, r2.obj, r3.obj}) == 3)
    return go


# ---------------------------------------------------------------- C16
def base_point_copies(L, st):
    cx = L.cx
    grp = L.ex.load(st, Ptr(L.ex.prog.gobj[L.P + 'Ed25519Group']))
    bp = '(*%sed25519Group).BASE_POINT'
    st, (a,) = L.one(st, bp, grp)
    st, (b,) = L.one(st, bp, grp)
    base = L.field(st, grp, 'ed25519Group', 'basePoint')
    L.vc.cond('copies are different objects', len({a.obj, b.obj, base.obj}) == 3)
    for what, prep in (('as handed out', None), ('with its tables taken away', NILSLICE)):
        s0 = st.copy()
        if prep is not None:
            v = L.ex.load(s0, a)
            v = list(v)
            for f in ('precomputedForSingle', 'precomputedForDouble'):
                v[cx.ge[f]] = prep
            L.ex.store(s0, a, St(v))
        before = dict(s0.heap)
        for fn in ('PrecomputeForScalarMultiplication', 'PrecomputeForDoubleScalarMultiplication'):
            mark = obj_mark()
            for s1, _ in L.call(s0, '(*%sEd25519GroupElement).' + fn, a):
                L.vc.trace = s1.trace
                ok, det = True, ''
                for o, v in s1.heap.items():
                    if o >= mark or o == a.obj:
                        continue
                    old = before.get(o, s1.base.get(o))
                    if old is None or not same_value(s1, old, v):
                        ok, det = False, 'object %d is written' % o
                L.vc.cond('frame: %s on a copy %s writes only the copy' % (fn, what), ok, det)
                x, y = L.ex.load(s1, a), before[a.obj]
                L.vc.cond('frame: the coordinates of the copy stay',
                          all(same_value(s1, x[cx.ge[f]], y[cx.ge[f]]) for f in 'XYZT'))
    # writing through a copy: nothing hanging on the copy that a precomputation stores into belongs to the package
    shared = set(L.ex.prog.base)
    for c in (a, b):
        v = L.ex.load(st, c)
        for f in ('precomputedForSingle', 'precomputedForDouble'):
            L.vc.cond('frame: the %s array of a copy is its own' % f,
                      v[cx.ge[f]].isnil() or v[cx.ge[f]].obj not in shared)


# ---------------------------------------------------------------- C17
def constants(L, st):
    ex, cx, vc = L.ex, L.cx, L.vc
    g = lambda n: ex.load(st, Ptr(ex.prog.gobj[L.P + n]))
    has = lambda n: (L.P + n) in ex.prog.gobj
    q = P25519
    dd = -121665 * pow(121666, -1, q) % q
    ii = pow(2, (q - 1) // 4, q)

    def limbs(v):
        if isinstance(v, Ptr):
            v = ex.load(st, v)
        if isinstance(v, St):
            v = v[0]
        return [e.const() for e in v]

    def value(v):
        l = limbs(v)
        return sum(c << e for c, e in zip(l, (0, 26, 51, 77, 102, 128, 153, 179, 204, 230))) % q

    def inb(l, k=1.1):
        return all(abs(c) <= k * 2**(25 if i % 2 == 0 else 24) for i, c in enumerate(l))

    def fe(what, v, want):
        vc.cond('%s has its value' % what, value(v) == want % q, 'limbs %r' % limbs(v))
        vc.cond('%s has limbs in bounds' % what, inb(limbs(v)), 'limbs %r' % limbs(v))

    def big(v):
        return models.big(ex, st, v).const()
    fld = g('Ed25519Field')
    t = cx.fields(cx.tid('ed25519Field'))
    vc.cond('P = 2^255 - 19', big(fld[t['P']]) == q, str(big(fld[t['P']])))
    for n, want in (('ZERO', 0), ('ONE', 1), ('TWO', 2), ('D', dd), ('DTimesTWO', 2 * dd)):
        fe('Ed25519Field.' + n, fld[t[n]], want)
    iv = value(fld[t['I']])
    vc.cond('Ed25519Field.I is a square root of -1', iv * iv % q == q - 1)
    vc.cond('Ed25519Field.I is the even root', iv == (ii if ii % 2 == 0 else q - ii), hex(iv))
    vc.cond('Ed25519Field.I has limbs in bounds', inb(limbs(fld[t['I']])))
    # the accessors
    for n, want in (('Ed25519FieldZero', 0), ('Ed25519FieldOne', 1), ('Ed25519FieldTWO', 2), ('Ed25519FieldD', dd),
                    ('Ed25519FieldDTimesTwo', 2 * dd)):
        s1, (v,) = L.one(st, n)
        pre, st0 = vc.prefix, st
        st = s1
        fe(n + '()', v, want)
        st = st0
    for n, z in (('Ed25519FieldZeroShort', 32), ('Ed25519FieldZeroLong', 64)):
        s1, (v,) = L.one(st, n)
        api.RPIECES(epiece([ic(0)] * z)).check(vc, s1, v)
    s1, (v,) = L.one(st, 'Ed25519FieldP')
    vc.cond('Ed25519FieldP() = 2^255 - 19', models.big(ex, s1, v).const() == q)
    if has('SqrtM1'):
        l = [e.const() for e in g("SqrtM1")]
        sv = value(St([Ar([ic(c) for c in l])]))
        vc.cond('SqrtM1 is a square root of -1', sv * sv % q == q - 1)
    # group
    grp = g('Ed25519Group')
    gs = ex.load(st, grp)
    t = cx.fields(cx.tid('ed25519Group'))
    order = big(gs[t['GROUP_ORDER']])
    vc.cond('GROUP_ORDER = 2^252 + 27742317777372353535851937790883648493', order == L25519, str(order))
    base = ex.load(st, gs[t['basePoint']])
    co = [value(base[cx.ge[f]]) for f in 'XYZT']
    for f in 'XYZT':
        vc.cond('limbs of base point %s in bounds' % f, inb(limbs(base[cx.ge[f]])))
    zi = pow(co[2], -1, q) if co[2] else 0
    x, y = co[0] * zi % q, co[1] * zi % q
    vc.cond('base point: Z is not zero', co[2] != 0)
    vc.cond('base point: P3 coordinates', base[cx.ge['coordinateSystem']].const() == P3)
    vc.cond('base point: y = 4/5', y == 4 * pow(5, -1, q) % q)
    vc.cond('base point: x is even', x % 2 == 0)
    vc.cond('base point: on the curve', (-x * x + y * y - 1 - dd * x * x * y * y) % q == 0)
    vc.cond('base point: T = X*Y/Z', co[3] * co[2] % q == co[0] * co[1] % q)
    on = (-x * x + y * y - 1 - dd * x * x * y * y) % q == 0
    vc.cond('L times the base point is the neutral element', on and points.aff_mul(L25519, (x, y)) == (0, 1))
    want = (x, y)

    def entry(what, v, pt):
        e = ex.load(st, v)
        ypx, ymx, xy2d = (value(e[cx.ge[f]]) for f in 'XYZ')
        px, py = pt
        vc.cond(what + ' coordinate system', e[cx.ge['coordinateSystem']].const() == PRE)
        vc.cond(what + ' value', ypx == (py + px) % q and ymx == (py - px) % q and xy2d == 2 * dd * px * py % q,
                'not the expected point')
        vc.cond(what + ' limbs in bounds', all(inb(limbs(e[cx.ge[f]])) for f in 'XYZ'))
    if not on:
        return

    def rows(sl):
        n = sl.len.const()
        return [ex.load(st, Ptr(sl.obj, sl.path + (sl.off.const() + i,))) for i in range(n)]
    single = rows(base[cx.ge['precomputedForSingle']])
    vc.cond('the single table has 32 rows', len(single) == 32)
    p = want
    for i, r in enumerate(single[:32]):
        es = rows(r)
        vc.cond('row %d of the single table has 8 entries' % i, len(es) == 8)
        m = p
        for j, e in enumerate(es[:8]):
            entry('single table (%d, %d)' % (i, j), e, m)
            m = points.aff_add(m, p)
        for _ in range(8):
            p = points.aff_add(p, p)
    dbl = rows(base[cx.ge['precomputedForDouble']])
    vc.cond('the double table has 8 entries', len(dbl) == 8)
    b2 = points.aff_add(want, want)
    m = want
    for k, e in enumerate(dbl[:8]):
        entry('double table (%d)' % k, e, m)
        m = points.aff_add(m, b2)


def build(cx):
    ls = [
        Lemma('a signature verifies under the key pair that made it', [
            ('every message', sign_then_verify(None)), ('nil message', sign_then_verify('nil')),
            ('empty message', sign_then_verify(0)), ('verifier with the public key only', sign_then_verify(None, True)),
            ('32 byte key', sign_then_verify(None, False, 32))]),
        Lemma('decryption returns the encrypted message', [
            ('every message', round_trip(None)), ('nil message', round_trip('nil')), ('empty message', round_trip(0)),
            ('recipient known by the public key', round_trip(None, b_only=True)),
            ('sender known by the public key', round_trip(None, a_only=True)),
            ('to oneself', round_trip(None, same=True))]),
        Lemma('both sides derive the same shared key', [('', shared_symmetric)]),
        Lemma('successive encryptions use successive bytes of the source',
              [('two encryptions', two_encryptions), ('cipher of an engine', engine_cipher)]),
        Lemma('successive keys use successive bytes of the source',
              [('generator', two_generated('generator')), ('engine', two_generated('engine'))]),
        Lemma('serialised signatures and keys parse to the same bytes', [
            ('signature', sig_round_trip), ('signature from integers', sig_ints),
            ('private key', key_round_trip('PrivateKey', 'NewPrivateKey', 'NewPrivateKeyfromHexString')),
            ('public key', key_round_trip('PublicKey', 'NewPublicKey', 'NewPublicKeyfromHex'))]),
        Lemma('canonicalisation is idempotent and agrees with the test', [('', canonicalise_twice)]),
        Lemma('digests are independent', [
            (fn, hash_twice(fn, h, n)) for fn, h, n in (
                ('HashesSha_256', 'sha-256', 1), ('HashesKeccak_256', 'keccak-256', 1), ('HashesSha3_256', 'sha3-256', 1),
                ('HashesRipemd160', 'ripemd-160', 1), ('HashesSha3_512', 'sha3-512', 0))]),
        Lemma('copies of the base point can be precomputed freely', [('', base_point_copies)]),
        Lemma('constants and tables after initialisation', [('', constants)]),
    ]
    out = {}
    for l in ls:
        for label, fn in l.variants:
            n = l.name[7:] + (' / ' + label if label else '')
            out['lemma: ' + n] = Lemma(n, [('', fn)])
    return out
