"""Symbolic values, formulas, path states and the decision procedure."""
import time
import kernel as kn
from kernel import K, Poly, FP, Bounds, pc, pa, padd, psub, pscale, pmul, fdiv, pmod, NEG, POS


class Unsupported(Exception):
    pass


class IV:
    """mathematical integer with a value-level interval"""
    __slots__ = ('p', 'lo', 'hi')

    def __init__(self, p, lo, hi):
        self.p = p
        self.lo = lo
        self.hi = hi

    def const(self):
        return self.p.const()

    def __repr__(self):
        return '<%s in [%s,%s]>' % (kn.show(self.p), self.lo, self.hi)


def ic(c):
    return IV(pc(c), c, c)


def iatom(a, st=None):
    lo = NEG if a.lo is None else a.lo
    hi = POS if a.hi is None else a.hi
    return IV(pa(a), lo, hi)


class Ptr:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj = obj
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.path == o.path

    def __hash__(self):
        return hash((self.obj, self.path))

    def __repr__(self):
        return 'Ptr(%s%s)' % (self.obj, ''.join('.%s' % x for x in self.path))


class Nil:
    def __repr__(self):
        return 'nil'


NIL = Nil()


class Slice:
    __slots__ = ('obj', 'path', 'off', 'len', 'cap')

    def __init__(self, obj, path, off, ln, cap):
        self.obj = obj
        self.path = path
        self.off = off      # Poly
        self.len = ln       # IV
        self.cap = cap      # IV

    def isnil(self):
        return self.obj is None

    def __repr__(self):
        return 'Slice(%s,%s,%s+%s)' % (self.obj, self.path, kn.show(self.off), kn.show(self.len.p))


class MaybeNil(Slice):
    """a slice that is nil or not when it is empty: the code must not ask"""
    __slots__ = ()


NILSLICE = Slice(None, (), kn.ZERO, ic(0), ic(0))


class St(tuple):
    """struct value"""
    pass


class Ar(tuple):
    """array value with concrete length"""
    pass


class Rope:
    """array value: pieces ('e', tuple) | ('s', seqkey, offPoly, lenPoly) | ('k', value, lenPoly)"""
    __slots__ = ('ps',)

    def __init__(self, ps):
        self.ps = tuple(ps)

    def __repr__(self):
        return 'Rope(%r)' % (self.ps,)


class BI:
    """content of a math/big.Int"""
    __slots__ = ('v', 'shared', 'f')

    def __init__(self, v, shared=False, f=None):
        self.v = v
        self.f = f          # image in F_p in which long sums are named
        self.shared = shared        # the words are shared with a struct copy

    def __repr__(self):
        return 'BI(%r)' % self.v


class Iface:
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t = t
        self.v = v

    def __repr__(self):
        return 'Iface(%s,%r)' % (self.t, self.v)


class Fn:
    __slots__ = ('name', 'bind')

    def __init__(self, name, bind=()):
        self.name = name
        self.bind = bind


class Str:
    """string value: constant or symbolic (canonical key)"""
    __slots__ = ('c', 'key', 'len')

    def __init__(self, c=None, key=None, ln=None):
        self.c = c
        self.key = key
        self.len = ln

    def __repr__(self):
        return 'Str(%r)' % (self.c if self.c is not None else (self.key,))


class Opaque:
    __slots__ = ('name', 'data')

    def __init__(self, name, data=None):
        self.name = name
        self.data = data

    def __repr__(self):
        return 'Opaque(%s)' % self.name


# ------------------------------------------------------------------ formulas
TRUE = ('c', True)
FALSE = ('c', False)


def fnot(f):
    t = f[0]
    if t == 'c':
        return FALSE if f[1] else TRUE
    if t == 'not':
        return f[1]
    if t == 'le':      # not p<=0  <=>  p>=1 <=> 1-p<=0
        return le0(psub(pc(1), f[1]))
    if t == 'and':
        return ('or', fnot(f[1]), fnot(f[2]))
    if t == 'or':
        return ('and', fnot(f[1]), fnot(f[2]))
    return ('not', f)


def le0(p):
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if len(p.d) <= 3:
        f = can_sign(p)
        if f is not None:
            return f
        if len(p.d) <= 2:
            f = special_sign(p)
            if f is not None:
                return f
    return ('le', p)


def special(k):
    if len(k) == 1:
        a = K.atoms[k[0]]
        if a.kind == 'u' and a.data[1] in ('xor', 'or', 'bitlen'):
            return a
    return None


def is_zero(a):
    """the formula a == 0 for a bitwise combination of bytes, or None"""
    if a.data[1] == 'or':
        # the bytes as one number, when that is simpler
        tot, n = kn.ZERO, 0
        for i, q in enumerate(a.arg):
            x = special(next(iter(q.d))) if len(q.d) == 1 else None
            if x is not None and q.d == {(x.id,): 1} and x.data[1] == 'xor':
                if len(x.arg) != 2:
                    break
                q = psub(x.arg[0], x.arg[1])
            n += len(q.d)
            tot = padd(tot, pscale(q, 1 << (8 * i)))
        else:
            if len(tot.d) < len(a.arg) or 2 * len(tot.d) < n:
                return eq0(tot)
        f = TRUE
        for q in a.arg:
            f = fand(f, eq0(q))
        return f
    if a.data[1] == 'xor' and len(a.arg) == 2:
        return eq0(psub(a.arg[0], a.arg[1]))
    return None


def special_sign(p):
    """a <= 0, 1 - a <= 0 for bitwise combinations; bounds of bit lengths"""
    for k, c in p.d.items():
        a = special(k) if k else None
        if a is None:
            continue
        const = p.d.get((), 0)
        if len(p.d) != 1 + (const != 0) or c not in (1, -1):
            return None
        if a.data[1] == 'bitlen':
            # n <= b  <=>  x < 2^b
            b = -const if c == 1 else const - 1
            f = le0(psub(a.arg, pc((1 << b) - 1))) if b >= 0 else FALSE
            return f if c == 1 else fnot(f)
        if c == 1 and const == 0:
            return is_zero(a)
        if c == -1 and const == 1:
            f = is_zero(a)
            return None if f is None else fnot(f)
    return None


def can_sign(p):
    """x <= 0 and 1 - x <= 0 for a canonical representative x: x = 0 and x != 0"""
    can = isz = None
    for k, c in p.d.items():
        if len(k) == 1:
            a = K.atoms[k[0]]
            if a.kind == 'u' and a.data[1] == 'can' and can is None:
                can = (a, c)
                continue
            if a.kind == 'u' and a.data[1] == 'isz' and isz is None:
                isz = (a, c)
                continue
        if k:
            return None
    if can is None:
        return None
    a, c = can
    const = p.d.get((), 0)
    if isz is not None:
        if isz[0].arg != a.arg or isz[1] != c * kn.P25519:
            return None
        # c*(can(g) + p*isz(g)) = -c*(p - ...) + c*p
        c, const = -c, const + c * kn.P25519
    if c == 1 and const == 0:
        return feq0(a.arg)
    if c == -1 and const == 1:
        return fnot(feq0(a.arg))
    return None


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if len(p.d) <= 4:
        f = can_equation(p)
        if f is not None:
            return f
        if len(p.d) <= 2:
            f = special_equation(p)
            if f is not None:
                return f
    # normalise sign and content
    q = kn.prim(p)
    pr, g, c0 = q
    if c0 % g:
        return FALSE
    return ('eq', padd(pr, pc(c0 // g)))


def special_equation(p):
    for k, c in p.d.items():
        a = special(k) if k else None
        if a is None:
            continue
        const = p.d.get((), 0)
        if len(p.d) != 1 + (const != 0) or c not in (1, -1):
            return None
        v = -const * c
        if a.data[1] == 'bitlen':
            if v < 0:
                return FALSE
            f = le0(psub(a.arg, pc((1 << v) - 1)))
            return fand(f, le0(psub(pc(1 << (v - 1)), a.arg))) if v else f
        return is_zero(a) if v == 0 else None
    return None


def can_equation(p):
    """equations between canonical representatives are equations in the field"""
    cans = []
    const = 0
    for k, c in p.d.items():
        if not k:
            const = c
            continue
        if len(k) != 1:
            return None
        a = K.atoms[k[0]]
        if a.kind != 'u' or a.data[1] not in ('can', 'isz'):
            return None
        cans.append((a, c))
    if len(cans) == 1 and cans[0][0].data[1] == 'isz':
        a, c = cans[0]
        if const == 0:
            return fnot(feq0(a.arg))
        return feq0(a.arg) if const == -c else FALSE
    cs = [(a, c) for a, c in cans if a.data[1] == 'can']
    zs = [(a, c) for a, c in cans if a.data[1] == 'isz']
    # combination of terms can(f) and p - can(g) - p*isz(g)
    pos, neg = [], []
    for a, c in cs:
        if c not in (1, -1):
            return None
        zz = [z for z in zs if z[0].arg == a.arg]
        if zz:
            # c*can(g) together with c*p*isz(g) and constant -c*p:   -c * can(-g)
            if zz[0][1] != c * kn.P25519:
                return None
            zs.remove(zz[0])
            const += c * kn.P25519
            (neg if c == 1 else pos).append(-a.arg)
        else:
            (pos if c == 1 else neg).append(a.arg)
    if zs:
        return None
    if len(pos) == 1 and len(neg) == 1 and const == 0:
        return feq0(pos[0] - neg[0])
    if len(pos) + len(neg) == 1:
        v = -const if pos else const
        if not 0 <= v < kn.P25519:
            return FALSE
        f = (pos or neg)[0]
        return feq0(f - kn.fp(v))
    return None


def feq0(f):
    f = kn.fcollect(kn.fnorm(f))
    c = f.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if len(f.d) == 1 and kn.nonzero_known(f):
        return FALSE
    # scale so that leading coefficient is 1
    lead = max(f.d)
    ci = pow(f.d[lead], kn.P25519 - 2, kn.P25519)
    return ('feq', f * kn.fp(ci))


def fand(a, b):
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == FALSE or b == FALSE:
        return FALSE
    return ('and', a, b)


def for_(a, b):
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    if a == TRUE or b == TRUE:
        return TRUE
    return ('or', a, b)


def fshow(f):
    t = f[0]
    if t == 'c':
        return str(f[1])
    if t == 'le':
        return '(%s <= 0)' % kn.show(f[1])
    if t == 'eq':
        return '(%s == 0)' % kn.show(f[1])
    if t == 'feq':
        return '(%r == 0 mod p)' % f[1]
    if t == 'not':
        return 'not ' + fshow(f[1])
    if t in ('and', 'or'):
        return '(%s %s %s)' % (fshow(f[1]), t, fshow(f[2]))
    return repr(f)[:200]


class State:
    __slots__ = ('heap', 'b', 'facts', 'env', 'base', 'log', 'panicking', 'ghost', 'trace')

    def __init__(self, base):
        self.base = base       # shared read-only heap (package initialisation)
        self.heap = {}
        self.b = Bounds()
        self.facts = ()
        self.env = {}          # atom id -> Poly
        self.log = ()          # ghost event log (e.g. bytes consumed from readers)
        self.panicking = None
        self.ghost = {}
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.b = self.b.copy()
        s.facts = self.facts
        s.env = dict(self.env)
        s.log = self.log
        s.panicking = self.panicking
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    # ---- heap
    def get(self, obj):
        h = self.heap.get(obj)
        if h is None:
            h = self.base[obj]
        return h

    def load(self, ptr):
        v = self.get(ptr.obj)
        for i in ptr.path:
            v = v[i]
        return v

    def store(self, ptr, val):
        self.heap[ptr.obj] = self._upd(self.get(ptr.obj), ptr.path, val)

    def _upd(self, c, path, val):
        if not path:
            return val
        i = path[0]
        cls = c.__class__
        l = list(c)
        l[i] = self._upd(c[i], path[1:], val)
        return cls(l)

    # ---- simplification
    def simp(self, p):
        if not self.env:
            return p
        return kn.subst(p, self.env, None, self.b)

    def fsimp(self, f):
        if not self.env:
            return f
        return kn.fsubst(f, self.env)

    def iconst(self, iv):
        c = iv.p.const()
        if c is not None:
            return c
        if iv.lo == iv.hi:
            return iv.lo
        if self.env:
            p = self.simp(iv.p)
            c = p.const()
            if c is not None:
                return c
        else:
            p = iv.p
        lo, hi = self.b.ival(p)
        if lo == hi and lo != NEG:
            return lo
        return None

    def mk(self, p):
        lo, hi = self.b.ival(p)
        return IV(p, lo, hi)

    # ---- assumptions
    def assume(self, f):
        """add f to the path condition; returns False if it becomes inconsistent"""
        t = f[0]
        if t == 'c':
            return f[1]
        if t == 'and':
            return self.assume(f[1]) and self.assume(f[2])
        f = self.fsimplify(f)
        t = f[0]
        if t == 'c':
            return f[1]
        if t == 'and':
            return self.assume(f[1]) and self.assume(f[2])
        self.facts = self.facts + (f,)
        if t == 'not' and f[1][0] == 'eq':
            d = f[1][1].d
            if len(d) == 1:
                (mono,) = d
                if len(mono) == 1 and K.atoms[mono[0]].odd is not None:
                    self.set_odd(mono[0])
            # an excluded end of the interval
            if len(d) <= 4:
                lo, hi = self.b.ival(f[1][1])
                if hi - lo == 1 and (lo == 0 or hi == 0):
                    return self.assume_eq(psub(f[1][1], pc(int(hi if lo == 0 else lo))))
            self.exclude(f[1][1])
        if t == 'le':
            self.b.record(f[1], NEG, 0)
            if 2 <= len(f[1].d) <= 6:
                lo, hi = self.b.ival(f[1])
                if lo == hi:
                    return self.assume_eq(psub(f[1], pc(int(lo))))
            if 2 <= len(f[1].d) <= 80:
                self.propagate(f[1])
            r = kn.prim(f[1])
            if r and len(r[0].d) == 1:
                (mono,), = [tuple(r[0].d)]
                if len(mono) == 1:
                    lo, hi = kn.ival_mono(mono, self.b.atom)
                    if lo > hi:
                        return False
                    for g in self.facts:
                        if g[0] == 'not' and g[1][0] == 'eq' and len(g[1][1].d) <= 2 and mono in g[1][1].d:
                            self.exclude(g[1][1])
                    lo, hi = kn.ival_mono(mono, self.b.atom)
                    if lo > hi:
                        return False
                    if lo == hi:
                        self.set_env(mono[0], pc(int(lo)))
                    elif K.atoms[mono[0]].odd is not None and (lo > 0 or hi < 0):
                        self.set_odd(mono[0])
        elif t == 'feq':
            # solve for a field variable
            g = f[1]
            if len(g.d) <= 2:
                for k in sorted(g.d, reverse=True):
                    if len(k) != 1 or k[0][1] != 1 or K.atoms[k[0][0]].kind != 'v':
                        continue
                    i = k[0][0]
                    if any(i == a for kk in g.d if kk != k for a, e in kk):
                        continue
                    rest = -(g * kn.fp(pow(g.d[k], kn.P25519 - 2, kn.P25519)) - FP({k: 1}))
                    if K.atoms[i].nz and not kn.nonzero_known(rest):
                        continue
                    self.set_env(i, rest)
                    break
                else:
                    # unit multiple of a nonzero variable
                    if len(g.d) == 2:
                        (k1, c1), (k2, c2) = g.d.items()
                        for ka, ca, kb, cb in ((k1, c1, k2, c2), (k2, c2, k1, c1)):
                            got = None
                            for i, e in ka:
                                if e == 1 and K.atoms[i].kind == 'v' and K.atoms[i].nz and \
                                        all(i != j for j, _ in kb) and \
                                        all(K.atoms[j].nz for j, _ in ka + kb):
                                    got = i
                            if got is not None:
                                q = kn.mmul(kb, tuple((j, -e) for j, e in ka if j != got))
                                self.set_env(got, FP({q: -cb * pow(ca, kn.P25519 - 2, kn.P25519) % kn.P25519}))
                                break
        elif t == 'eq':
            return self.assume_eq(f[1])
        return True

    def exclude(self, p):
        """p is not zero: an end of its interval can be cut off"""
        if len(p.d) > 2:
            return
        lo, hi = self.b.ival(p)
        if lo == 0:
            self.b.record(psub(pc(1), p), NEG, 0)
        elif hi == 0:
            self.b.record(padd(p, pc(1)), NEG, 0)

    def assume_eq(self, p):
            if 2 <= len(p.d) <= 80:
                r = self.extreme(p)
                if r is not None:
                    return r
            self.b.record(p, 0, 0)
            if len(p.d) <= 3 and self.divmod_eq(p):
                return True
            # solve for an atom with unit coefficient that occurs nowhere else
            best = None
            for k, c in p.d.items():
                if len(k) == 1 and abs(c) == 1:
                    a = K.atoms[k[0]]
                    n = sum(1 for kk in p.d if k[0] in kk)
                    if n != 1:
                        continue
                    if any(self.occurs(k[0], kk) for kk in p.d if kk != k):
                        continue
                    rank = (a.kind == 'v', -len(p.d), k[0])
                    if best is None or rank > best[0]:
                        best = (rank, k, c)
            if best is not None and (len(p.d) <= 2 or best[0][0] or self.bit_eq(p)):
                _, k, c = best
                rest = Poly({kk: -v * c for kk, v in p.d.items() if kk != k})
                cc = rest.const()
                if cc is not None:
                    lo, hi = kn.ival_mono(k, self.b.atom)
                    if cc < lo or cc > hi:
                        return False
                    self.b.atom[k[0]] = (cc, cc)
                self.set_env(k[0], rest)
            return True

    def extreme(self, p):
        """p = 0 at an end of its interval: every term is at an end of its own; u - m*floor(u/m) is one term"""
        d = dict(p.d)
        terms = [(pc(1), d.pop((), 0), 1, 1)] if () in d else []
        for k in list(p.d):
            a = kn.K.atoms[k[0]] if len(k) == 1 else None
            if a is None or a.kind != 'f' or k not in d:
                continue
            c = d[k]
            if c % a.m == 0 and a.arg.d and all(d.get(j) == -c // a.m * e for j, e in a.arg.d.items()):
                for j in a.arg.d:
                    del d[j]
                del d[k]
                terms.append((psub(a.arg, Poly({k: a.m})), -c // a.m, 0, a.m - 1))
        for k, c in d.items():
            terms.append((Poly({k: 1}), c) + tuple(kn.ival_mono(k, self.b.atom)))
        if len(terms) - (() in p.d) < 2:
            return None
        for sign in (1, -1):
            tot, ends = 0, []
            for q, c, lo, hi in terms:
                e = lo if c * sign > 0 else hi
                if e in (NEG, POS):
                    break
                tot += c * e
                ends.append((q, lo, hi, e))
            else:
                if tot == 0:
                    for q, lo, hi, e in ends:
                        if len(q.d) > 1 or any(k and k[0] in self.env for k in q.d):
                            f = eq0(self.simp(psub(q, pc(int(e)))))
                            if f != TRUE and (f == FALSE or not self.assume(f)):
                                return False
                            continue
                        (k, c), = q.d.items()
                        if k and len(k) == 1:
                            if (lo, hi) != (e, e):
                                self.b.atom[k[0]] = (e, e)
                            self.set_env(k[0], pc(int(e)))
                        elif k:
                            self.b.record(q, int(e), int(e))
                    # what the path knew about these terms may determine further ones
                    for f in list(self.facts):
                        if f[0] == 'eq' and any(kn.K.atoms[k[0]].kind == 'f' for k in f[1].d if k):
                            q = self.simp(f[1])
                            if eq0(q) == FALSE:
                                return False
                            if len(q.d) == 1:
                                (k, _), = q.d.items()
                                if len(k) == 1:
                                    if not self.assume(eq0(q)):
                                        return False
                                    if k[0] not in self.env:
                                        self.set_env(k[0], pc(0))
                    for f in self.facts:
                        if f[0] == 'not' and f[1][0] == 'eq' and self.fsimplify(f) == FALSE:
                            return False
                    return True
        return None

    def bit_eq(self, p):
        """floor(x/m) - 2*floor(x/2m) = c"""
        fl = [(K.atoms[k[0]], c) for k, c in p.d.items() if len(k) == 1 and K.atoms[k[0]].kind == 'f']
        if len(p.d) - (() in p.d) != 2 or len(fl) != 2:
            return False
        (a, c), (b, e) = sorted(fl, key=lambda x: x[0].m)
        return b.m == 2 * a.m and a.arg == b.arg and e == -2 * c and abs(c) == 1

    def divmod_eq(self, p):
        """x - m*floor(x/m) = c: replace x by m*q + c"""
        for k, c in p.d.items():
            if len(k) != 1 or K.atoms[k[0]].kind != 'f':
                continue
            fl = K.atoms[k[0]]
            (x, cx), = list(fl.arg.d.items()) if len(fl.arg.d) == 1 else [(None, 0)]
            if x is None or cx != 1 or len(x) != 1 or K.atoms[x[0]].kind != 'v' or x[0] in self.env:
                continue
            s = p.d.get(x)
            if s not in (1, -1) or c != -s * fl.m or any(kk not in ((), x, k) for kk in p.d):
                continue
            r = -s * p.d.get((), 0)
            if not 0 <= r < fl.m:
                return False
            lo, hi = kn.ival_mono(x, self.b.atom)
            q = K.fresh('quot', NEG if lo == NEG else kn.ceil_div(lo - r, fl.m), POS if hi == POS else (hi - r) // fl.m)
            self.set_env(x[0], padd(pscale(pa(q), fl.m), pc(r)))
            return True
        return False

    def set_odd(self, i):
        if i in self.env:
            return
        k = K.atoms[i].odd
        lo, hi = kn.ival_mono((i,), self.b.atom)
        kl, kh = kn.ival_mono((k.id,), self.b.atom)
        l = NEG if lo == NEG else -((1 - lo) // 2)
        h = POS if hi == POS else (hi - 1) // 2
        self.b.atom[k.id] = (max(kl, l), min(kh, h))
        self.set_env(i, Poly({(k.id,): 2, (): 1}))

    def propagate(self, p):
        """p <= 0 bounds the atoms of p"""
        tot = 0
        mins = {}
        for k, c in p.d.items():
            lo, hi = kn.ival_mono(k, self.b.atom)
            m = c * lo if c > 0 else c * hi
            if m == NEG or m == POS or m != m:
                return
            mins[k] = m
            tot += m
        for k, c in p.d.items():
            if len(k) != 1:
                continue
            slack = -(tot - mins[k])        # c*atom <= slack
            lo, hi = kn.ival_mono(k, self.b.atom)
            if c > 0:
                h = slack // c
                if h < hi:
                    self.b.atom[k[0]] = (lo, h)
            else:
                l = kn.ceil_div(slack, c)
                if l > lo:
                    self.b.atom[k[0]] = (l, hi)

    def occurs(self, i, mono):
        seen = set()
        stack = list(mono)
        while stack:
            j = stack.pop()
            if j == i:
                return True
            if j in seen:
                continue
            seen.add(j)
            a = K.atoms[j]
            if a.kind == 'f':
                for kk in a.arg.d:
                    stack.extend(kk)
        return False

    def set_env(self, i, poly):
        isf = isinstance(poly, FP)
        poly = kn.fnorm(self.fsimp(poly)) if isf else self.simp(poly)
        one = {i: poly}
        for j, q in list(self.env.items()):
            self.env[j] = kn.fnorm(kn.fsubst(q, one)) if isinstance(q, FP) else kn.subst(q, one, None, self.b)
        self.env[i] = poly
        a = K.atoms[i]
        if a.kind == 'f' and len(a.arg.d) <= 40:       # the bounds of the remainder outlive the atom
            r = psub(self.simp(a.arg), pscale(poly, a.m))
            if r.const() is None:
                self.b.record(r, 0, a.m - 1)

    def fsimplify(self, f):
        t = f[0]
        if not self.env or t in ('c', 'b'):
            return f
        if t == 'le':
            return le0(self.simp(f[1]))
        if t == 'eq':
            return eq0(self.simp(f[1]))
        if t == 'feq':
            return feq0(self.fsimp(f[1]))
        if t == 'not':
            return fnot(self.fsimplify(f[1]))
        if t == 'and':
            return fand(self.fsimplify(f[1]), self.fsimplify(f[2]))
        if t == 'or':
            return for_(self.fsimplify(f[1]), self.fsimplify(f[2]))
        return f

    # ---- decision
    def decide(self, f, effort=1):
        """True / False / None"""
        t = f[0]
        if t == 'c':
            return f[1]
        if t == 'not':
            r = self.decide(f[1], effort)
            return None if r is None else (not r)
        if t == 'and':
            a = self.decide(f[1], effort)
            if a is False:
                return False
            b = self.decide(f[2], effort)
            if b is False:
                return False
            if a and b:
                return True
            if effort >= 2 and self.refute(f):
                return False
            return self.by_facts(f, effort)
        if t == 'or':
            a = self.decide(f[1], effort)
            if a is True:
                return True
            b = self.decide(f[2], effort)
            if b is True:
                return True
            if a is False and b is False:
                return False
            return self.by_facts(f, effort)
        f = self.fsimplify(f)
        t = f[0]
        if t == 'c':
            return f[1]
        if t not in ('le', 'eq', 'feq', 'b'):
            return self.decide(f, effort)
        if t == 'le':
            lo, hi = self.b.ival(f[1])
            if hi <= 0:
                return True
            if lo > 0:
                return False
        elif t == 'eq':
            lo, hi = self.b.ival(f[1])
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
        elif t == 'feq':
            if kn.fzero(f[1]):
                return True
            if kn.nonzero_known(f[1]):
                return False
        nf = fnot(f)
        fk = fkey(f)
        nk = fkey(nf)
        for g in self.facts:
            gk = fkey(self.fsimplify(g))
            if gk == fk:
                return True
            if gk == nk:
                return False
            if gk[0] == 'or':
                pass
        if t == 'feq':
            r = self.feq_from_facts(f[1])
            if r is not None:
                return r
        if effort >= 1 and t in ('le', 'eq'):
            r = smt_decide(self, f, 3000 if effort == 1 else 20000)
            if r is not None:
                return r
        return None

    def by_facts(self, f, effort):
        fk = fkey(f)
        nk = fkey(fnot(f))
        for g in self.facts:
            if g[0] in ('and', 'or', 'not'):
                gk = fkey(self.fsimplify(g))
                if gk == fk:
                    return True
                if gk == nk:
                    return False
        if effort >= 1:
            return smt_decide(self, f, 3000 if effort == 1 else 20000)
        return None

    def feq_from_facts(self, f):
        """f == 0 follows from one equation fact g == 0 when f = q*g for a monomial q"""
        for g in self.facts:
            if g[0] == 'feq':
                q = kn.fquot_monomial(kn.fnorm(f), g[1])
                if q is not None:
                    return True
            if g[0] == 'not' and g[1][0] == 'feq':
                q = kn.fquot_monomial(kn.fnorm(f), g[1][1])
                if q is not None and kn.nonzero_known(q):
                    return False
        gs = [self.fsimp(g[1]) for g in self.facts if g[0] == 'feq']
        gs = [g for g in gs if g.d]
        if gs and kn.ideal_member(f, gs):
            return True
        for g in self.facts:
            if g[0] == 'not' and g[1][0] == 'feq' and kn.ideal_member(self.fsimp(g[1][1]), gs + [f]):
                return False
        return None

    def refute(self, f):
        """the conjunction f of field equations contradicts a disequation of the path"""
        fs = []
        st = [f]
        while st:
            g = st.pop()
            if g[0] == 'and':
                st += [g[1], g[2]]
            elif g[0] == 'feq':
                fs.append(self.fsimp(g[1]))
        if not fs:
            return False
        gs = fs + [self.fsimp(g[1]) for g in self.facts if g[0] == 'feq']
        return any(g[0] == 'not' and g[1][0] == 'feq' and kn.ideal_member(self.fsimp(g[1][1]), gs)
                   for g in self.facts)


def fkey(f):
    t = f[0]
    if t in ('le', 'eq', 'feq'):
        return (t, f[1].key())
    if t == 'not':
        return (t, fkey(f[1]))
    if t in ('and', 'or'):
        return (t, fkey(f[1]), fkey(f[2]))
    return f


# ------------------------------------------------------------------ SMT back end
SMT_STATS = {'calls': 0, 'time': 0.0, 'unsat': 0}
_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


class SmtEnc:
    def __init__(self, st):
        self.z3 = z3mod()
        self.st = st
        self.vars = {}
        self.cons = []
        self.bools = {}

    def mono(self, k):
        if k in self.vars:
            return self.vars[k]
        z = self.z3
        v = z.Int('m_' + '_'.join(map(str, k)))
        self.vars[k] = v
        lo, hi = kn.ival_mono(k, self.st.b.atom)
        if lo != NEG:
            self.cons.append(v >= int(lo))
        if hi != POS:
            self.cons.append(v <= int(hi))
        if len(k) == 1:
            a = K.atoms[k[0]]
            if a.kind == 'f':
                e = self.poly(a.arg)
                self.cons.append(v * a.m <= e)
                self.cons.append(e <= v * a.m + (a.m - 1))
            elif a.kind == 'u' and a.data[1] == 'modL':
                e = self.poly(a.arg)
                q = z.Int('q_%d' % k[0])
                self.cons.append(v == e - q * kn.L25519)
        return v

    def poly(self, p):
        z = self.z3
        ts = []
        for k, c in p.d.items():
            if not k:
                ts.append(z.IntVal(c))
            else:
                v = self.mono(k)
                ts.append(v if c == 1 else c * v)
        if not ts:
            return z.IntVal(0)
        return z.Sum(ts) if len(ts) > 1 else ts[0]

    def form(self, f):
        z = self.z3
        t = f[0]
        if t == 'c':
            return z.BoolVal(f[1])
        if t == 'le':
            return self.poly(f[1]) <= 0
        if t == 'eq':
            return self.poly(f[1]) == 0
        if t == 'not':
            return z.Not(self.form(f[1]))
        if t == 'and':
            return z.And(self.form(f[1]), self.form(f[2]))
        if t == 'or':
            return z.Or(self.form(f[1]), self.form(f[2]))
        k = fkey(f)
        if k not in self.bools:
            self.bools[k] = z.Bool('b_%d' % len(self.bools))
        return self.bools[k]


def atoms_of(f, acc):
    t = f[0]
    if t in ('le', 'eq'):
        for k in f[1].d:
            acc.update(k)
    elif t == 'not':
        atoms_of(f[1], acc)
    elif t in ('and', 'or'):
        atoms_of(f[1], acc)
        atoms_of(f[2], acc)
    return acc


def close_atoms(acc):
    stack = list(acc)
    while stack:
        a = K.atoms[stack.pop()]
        if a.kind == 'f':
            for k in a.arg.d:
                for i in k:
                    if i not in acc:
                        acc.add(i)
                        stack.append(i)
    return acc


def smt_decide(st, f, timeout):
    """is f implied (True) / refuted (False) by the path condition?"""
    at = atoms_of(f, set())
    if len(at) > 400:
        return None
    z3 = z3mod()
    t0 = time.time()
    at = close_atoms(at)
    enc = SmtEnc(st)
    g = enc.form(f)
    rel = []
    for x in st.facts:
        if x[0] in ('le', 'eq', 'not', 'or', 'and'):
            xa = atoms_of(x, set())
            if len(xa) >= 100:
                continue
            if xa & at or timeout > 5000 and xa and close_atoms(set(xa)) & at:
                rel.append(enc.form(x))
    # recorded intervals over the same atoms
    n = 0
    for k, (lo, hi) in st.b.rec.items():
        if len(k) > 12 or n > 60:
            continue
        ok = all(all(i in at for i in m) for m, c in k)
        if ok:
            n += 1
            e = enc.poly(Poly(dict(k)))
            if lo != NEG:
                rel.append(e >= int(lo))
            if hi != POS:
                rel.append(e <= int(hi))
    if not rel and len(at) <= 1 and f[0] in ('le', 'eq'):
        return None         # the interval of the single atom has been consulted already
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*enc.cons)
    s.add(*rel)
    SMT_STATS['calls'] += 1
    res = None
    s.push()
    s.add(z3.Not(g))
    r = s.check()
    if r == z3.unsat:
        res = True
    else:
        s.pop()
        s.add(g)
        if s.check() == z3.unsat:
            res = False
    SMT_STATS['time'] += time.time() - t0
    if res is not None:
        SMT_STATS['unsat'] += 1
    return res
