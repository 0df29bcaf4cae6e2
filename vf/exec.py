"""Symbolic executor for go/ssa (JSON dump of extract/).  Every path is executed; callees
with a contract are replaced by the contract, all others are inlined."""
import heapq
import itertools
import kernel as kn
from kernel import (K, Poly, pc, pa, padd, psub, pscale, pmul, fdiv, pmod, NEG, POS)
from state import *
import state as stmod


class NeedFork(Exception):
    def __init__(self, f):
        self.f = f


class NeedEnum(Exception):
    """enumerate the values of a polynomial with a small known range"""
    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi


class GoPanic(Exception):
    """the instruction panics in this state"""
    def __init__(self, val):
        self.val = val


class Overflow(Exception):
    pass


INT = {}
for _n, _b, _s in (('int', 64, True), ('int64', 64, True), ('int32', 32, True), ('int16', 16, True),
                   ('int8', 8, True), ('uint', 64, False), ('uint64', 64, False), ('uint32', 32, False),
                   ('uint16', 16, False), ('uint8', 8, False), ('byte', 8, False), ('uintptr', 64, False),
                   ('rune', 32, True), ('untyped int', 64, True), ('untyped rune', 32, True)):
    INT[_n] = (_b, _s)

_objs = itertools.count(1)


def new_obj():
    return next(_objs)


def obj_mark():
    """objects created from now on have larger ids"""
    return next(_objs)


class Program:
    def __init__(self, js):
        self.pkg = js['pkg']
        self.types = js['types']
        self.funcs = js['funcs']
        self.globals = js['globals']
        self.methods = js['methods']
        self.base = {}
        self.gobj = {}
        self.byname = {}
        for i, t in enumerate(self.types):
            self.byname[t['str']] = i
        for f in self.funcs.values():
            if 'blocks' in f:
                self.prep(f)

    # ---- CFG preparation: reverse post order, loops
    def prep(self, f):
        bl = f['blocks']
        n = len(bl)
        seen = set()
        order = []
        stack = [(0, iter(bl[0]['succs']))]
        seen.add(0)
        extra = [f['recover']] if 'recover' in f and f['recover'] is not None else []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(bl[s]['succs'])))
                    break
            else:
                order.append(b)
                stack.pop()
        for e in extra:
            if e not in seen:
                order.insert(0, e)
                seen.add(e)
        rpo = {b: i for i, b in enumerate(reversed(order))}
        # dominators
        idom = {0: 0}
        ro = sorted((b for b in rpo), key=lambda b: rpo[b])
        ch = True
        while ch:
            ch = False
            for b in ro:
                if b == 0:
                    continue
                ps = [p for p in bl[b]['preds'] if p in idom]
                if not ps:
                    if b in extra and b not in idom:
                        idom[b] = 0
                        ch = True
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while rpo[x] > rpo[y]:
                            x = idom[x]
                        while rpo[y] > rpo[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0 or b not in idom:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in bl[b]['succs']:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(bl[x]['preds'])
        nest = {}
        for b in rpo:
            hs = [h for h in loops if b in loops[h]]
            hs.sort(key=lambda h: rpo[h])
            nest[b] = tuple(hs)
        f['_rpo'] = rpo
        f['_loops'] = loops
        f['_nest'] = nest
        # loop counters: a phi that is changed by a constant on the way back to the header
        ind = {}
        defs = {ins['n']: ins for b in bl for ins in b['instrs'] if 'n' in ins}
        for h in loops:
            for n, ins in enumerate(bl[h]['instrs']):
                if ins['op'] != 'Phi':
                    break
                for p, e in zip(bl[h]['preds'], ins['edges']):
                    d = defs.get(e['n']) if p in loops[h] and e and e['k'] == 'local' else None
                    if d is not None and d['op'] == 'BinOp' and d['tok'] in '+-' and \
                            d['x']['k'] == 'local' and d['x']['n'] == ins['n'] and d['y']['k'] == 'const' and \
                            not d['y'].get('s') and h not in ind:
                        try:
                            s = int(d['y']['v']) * (1 if d['tok'] == '+' else -1)
                        except (TypeError, ValueError):
                            continue
                        ind[h] = (n, 1 if s > 0 else -1)
        f['_ind'] = ind
        # liveness of locals at loop headers (for merging)
        use = {}
        for b in bl:
            u, d = set(), set()
            for ins in b['instrs']:
                if ins['op'] == 'Phi':
                    d.add(ins['n'])
                    continue
                for v in operands(ins):
                    if v not in d:
                        u.add(v)
                if 'n' in ins:
                    d.add(ins['n'])
            use[b['i']] = (u, d)
        live = {b['i']: set() for b in bl}
        ch = True
        while ch:
            ch = False
            for b in reversed(bl):
                out = set()
                for s in b['succs']:
                    out |= live[s]
                    for ins in bl[s]['instrs']:
                        if ins['op'] != 'Phi':
                            break
                        e = ins['edges'][bl[s]['preds'].index(b['i'])]
                        if e and e['k'] == 'local':
                            out.add(e['n'])
                        out.discard(ins['n'])
                u, d = use[b['i']]
                phis = {ins['n'] for ins in b['instrs'] if ins['op'] == 'Phi'}
                new = u | (out - (d - phis)) | (phis & live[b['i']])
                new = u | (out - d) | phis
                if new != live[b['i']]:
                    live[b['i']] = new
                    ch = True
        f['_live'] = live

    def t(self, i):
        return self.types[i]

    def under(self, i):
        t = self.types[i]
        while t['kind'] == 'named':
            t = self.types[t['under']]
        return t

    def intinfo(self, i):
        t = self.under(i)
        if t['kind'] == 'basic':
            return INT.get(t['str'] if 'name' not in t else t['name'])
        return None

    def isbig(self, i):
        return self.types[i]['str'] == 'math/big.Int'

    def zero(self, i):
        t = self.types[i]
        if t['kind'] == 'named':
            if t['str'] == 'math/big.Int':
                return BI(ic(0))
            if t['str'] in OPAQUE_TYPES:
                return OPAQUE_TYPES[t['str']]()
            return self.zero(t['under'])
        k = t['kind']
        if k == 'basic':
            n = t.get('name', t['str'])
            if n in INT:
                return ic(0)
            if n in ('bool', 'untyped bool'):
                return FALSE
            if n in ('string', 'untyped string'):
                return Str(c='')
            if n == 'untyped nil':
                return NIL
            raise Unsupported('zero of %s' % n)
        if k in ('pointer', 'interface', 'func', 'map', 'chan'):
            return NIL
        if k == 'slice':
            return NILSLICE
        if k == 'array':
            z = self.zero(t['elem'])
            return Ar([z] * t['len'])
        if k == 'struct':
            return St([self.zero(f['type']) for f in t['fields']])
        if k == 'tuple':
            return St([self.zero(e) for e in t['elems']])
        raise Unsupported('zero of kind %s' % k)


OPAQUE_TYPES = {}


def operands(ins):
    out = []

    def rec(v):
        if isinstance(v, dict):
            if v.get('k') == 'local':
                out.append(v['n'])
            elif 'k' not in v:
                for x in v.values():
                    rec(x)
        elif isinstance(v, list):
            for x in v:
                rec(x)
    for k, v in ins.items():
        if k in ('n', 't', 'pos', 'op', 'comment', 'tok'):
            continue
        rec(v)
    return out


class Item:
    __slots__ = ('st', 'env', 'blk', 'idx', 'prev', 'iters', 'defers')

    def __init__(self, st, env, blk, idx, prev, iters, defers):
        self.st, self.env, self.blk, self.idx, self.prev = st, env, blk, idx, prev
        self.iters, self.defers = iters, defers


class Outcome:
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val):
        self.st, self.kind, self.val = st, kind, val


class Stats:
    def __init__(self):
        self.instrs = 0
        self.paths = 0
        self.calls = {}
        self.overflow = []


class Exec:
    MAXITER = 5000

    def __init__(self, prog):
        self.prog = prog
        self.models = {}
        self.invoke_models = {}
        self.contracts = {}
        self.use_contracts = True
        self.cur = None            # function under verification
        self.stats = Stats()
        self.depth = 0
        self.inlined = set()
        self.applied = set()
        self.assumed = set()
        self.deadline = None
        self.tier = 'quick'
        self.loop_specs = {}
        self.overflow_ok = False
        self.ctx_stack = []
        self.split_bytes = False   # bytes of a big.Int by cases
        self.looprule = False      # loops without concrete bound are generalised
        self.merging = False       # join the paths that meet at loop headers
        self.template = None       # loop invariant used at the joins
        self.readonly = set()      # objects that stand for table entries

    # ------------------------------------------------------------ values
    def const(self, c):
        t = self.prog.under(c['t'])
        v = c['v']
        if v is None:
            return self.prog.zero(c['t'])
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if c.get('s'):
            return Str(c=v)
        if t['kind'] == 'basic' and t.get('name', t['str']) in ('float64', 'float32'):
            return Opaque('float', v)
        return ic(int(v))

    def val(self, fr, v):
        k = v['k']
        if k == 'local':
            return fr.env[v['n']]
        if k == 'const':
            c = v.get('_c')
            if c is None:
                c = self.const(v)
                v['_c'] = c
            return c
        if k == 'global':
            return Ptr(self.gobj(v['n'], v['t']))
        if k == 'func':
            return Fn(v['n'])
        if k == 'free':
            return fr.env['$' + v['n']]
        if k == 'builtin':
            return Fn('builtin.' + v['n'])
        raise Unsupported('value kind ' + k)

    def gobj(self, name, t=None):
        o = self.prog.gobj.get(name)
        if o is None:
            o = new_obj()
            self.prog.gobj[name] = o
            m = self.models.get('var:' + name)
            if m is not None:
                self.prog.base[o] = m
            else:
                pt = self.prog.t(t)
                if pt['kind'] != 'pointer':
                    raise Unsupported('global ' + name)
                try:
                    self.prog.base[o] = self.global_value(name, pt['elem'])
                except Unsupported:
                    del self.prog.gobj[name]
                    raise
        return o

    def global_value(self, name, t):
        if name.startswith(self.prog.pkg + '.') or '/go-xpx-utils.' in name:
            return self.prog.zero(t)
        # a variable of a dependency: error values and types without content only
        if self.prog.t(t)['str'] == 'error':
            return Iface('*errors.errorString', Opaque('err', name))
        if name in ('os.Stderr', 'os.Stdout'):
            o = new_obj()
            self.prog.base[o] = Opaque('stream', name)
            return Ptr(o)
        z = self.prog.zero(t) if self.prog.under(t)['kind'] == 'struct' else None
        if isinstance(z, St) and len(z) == 0:
            return z
        raise Unsupported('external variable ' + name)

    # ------------------------------------------------------------ integers
    def wrap(self, st, p, t, what=None, lo=None, hi=None):
        """value of the (mathematical) polynomial p in the integer type t"""
        bits, signed = self.prog.intinfo(t)
        return self.wrapb(st, p, bits, signed, what, lo, hi)

    def wrapb(self, st, p, bits, signed, what, lo=None, hi=None):
        if signed:
            mn, mx = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            mn, mx = 0, (1 << bits) - 1
        c = p.const()
        if c is not None:
            if mn <= c <= mx:
                return IV(p, c, c)
            if what and signed:
                self.overflow(st, what, p)
            c = (c - mn) % (1 << bits) + mn
            return ic(c)
        if lo is None:
            lo, hi = st.b.ival(p)
        if lo < mn or hi > mx:
            l2, h2 = st.b.ival(p)
            lo, hi = max(lo, l2), min(hi, h2)
        if mn <= lo and hi <= mx:
            return IV(p, lo, hi)
        if what and signed:
            self.overflow(st, what, p)
        m = 1 << bits
        q = psub(p, pscale(fdiv(padd(p, pc(-mn)), m, st.b), m)) if mn else pmod(p, m, st.b)
        l2, h2 = st.b.ival(q)
        return IV(q, max(l2, mn), min(h2, mx))

    def overflow(self, st, what, p):
        if not self.overflow_ok:
            self.stats.overflow.append((what, kn.show(p)))

    def binop(self, st, tok, x, y, t, xt, pos):
        if tok in ('+', '-', '*'):
            if isinstance(x, Str) and tok == '+':
                return str_cat(x, y)
            if tok == '+':
                r = padd(x.p, y.p)
                for a, b in ((x, y), (y, x)):
                    if b.lo >= 0 and b.hi < (1 << 16) and len(r.d) > 1 and a.p.d:
                        g = kn.content(a.p, True)
                        if g > b.hi and (g & -g) > b.hi:
                            z = (g & -g).bit_length() - 1
                            if z:
                                st.b.dis[r.key()] = (z, Poly({m: c >> z for m, c in a.p.d.items()}))
                            break
                return self.wrap(st, r, t, pos, x.lo + y.lo, x.hi + y.hi)
            if tok == '-':
                p = psub(x.p, y.p)
                lo, hi = x.lo - y.hi, x.hi - y.lo
                if len(p.d) > 1:
                    l2, h2 = st.b.ival(p, 1)
                    lo, hi = max(lo, l2), min(hi, h2)
                return self.wrap(st, p, t, pos, lo, hi)
            lo, hi = kn.imul((x.lo, x.hi), (y.lo, y.hi))
            if x.p is y.p or x.p == y.p:
                lo = max(lo, 0)
            return self.wrap(st, pmul(x.p, y.p), t, pos, lo, hi)
        if tok in ('==', '!='):
            f = self.equal(st, x, y)
            return f if tok == '==' else fnot(f)
        if tok in ('<', '<=', '>', '>='):
            if isinstance(x, Str):
                raise Unsupported('string order')
            if tok == '<':
                return self.cmp(padd(psub(x.p, y.p), pc(1)), x.lo - y.hi + 1, x.hi - y.lo + 1)
            if tok == '<=':
                return self.cmp(psub(x.p, y.p), x.lo - y.hi, x.hi - y.lo)
            if tok == '>':
                return self.cmp(padd(psub(y.p, x.p), pc(1)), y.lo - x.hi + 1, y.hi - x.lo + 1)
            return self.cmp(psub(y.p, x.p), y.lo - x.hi, y.hi - x.lo)
        if tok == '<<':
            k = st.iconst(y)
            if k is None:
                self.enum(st, y)
            if k < 0:
                raise GoPanic('negative shift')
            bits, signed = self.prog.intinfo(t)
            if k >= bits:
                return ic(0)
            # shifting is not reported as overflow (bit operation)
            return self.wrap(st, pscale(x.p, 1 << k), t, pos, x.lo * (1 << k), x.hi * (1 << k))
        if tok == '>>':
            k = st.iconst(y)
            if k is None:
                self.enum(st, y)
            if k < 0:
                raise GoPanic('negative shift')
            q = fdiv(x.p, 1 << k, st.b)
            lo = x.lo if x.lo == NEG else int(x.lo) >> k
            hi = x.hi if x.hi == POS else int(x.hi) >> k
            st.b.note(q, lo, hi)
            return IV(q, lo, hi)
        if tok in ('/', '%'):
            m = st.iconst(y)
            if m is None:
                self.enum(st, y)
            if m == 0:
                raise GoPanic('division by zero')
            cx = x.const()
            if cx is not None:
                q = abs(cx) // abs(m)
                if (cx < 0) != (m < 0):
                    q = -q
                if tok == '/':
                    return self.wrap(st, pc(q), t)
                return ic(cx - q * m)
            p = st.simp(x.p)
            neg = st.decide(le0(padd(p, pc(1))))
            if neg is None:
                neg_ok = st.decide(le0(p))
                if neg_ok is True:
                    neg = True
                else:
                    raise NeedFork(le0(padd(p, pc(1))))
            if neg:
                q = pscale(fdiv(pscale(p, -1), abs(m), st.b), -1)
            else:
                q = fdiv(p, abs(m), st.b)
            if m < 0:
                q = pscale(q, -1)
            if tok == '/':
                return self.wrap(st, q, t)
            return st.mk(psub(p, pscale(q, m)))
        if tok in ('&', '|', '^', '&^'):
            if isinstance(x, tuple):
                raise Unsupported('bool bitop')
            bits, signed = self.prog.intinfo(t)
            return self.bitop(st, tok, x, y, bits, signed)
        raise Unsupported('binop ' + tok)

    def cmp(self, p, lo, hi):
        """formula p <= 0 knowing p in [lo,hi]"""
        if hi <= 0:
            return TRUE
        if lo > 0:
            return FALSE
        return le0(p)

    def enum(self, st, iv, limit=64):
        p = st.simp(iv.p)
        lo, hi = st.b.ival(p)
        lo, hi = max(lo, iv.lo), min(hi, iv.hi)
        if lo == NEG or hi == POS or hi - lo > limit:
            raise Unsupported('cannot enumerate %s in [%s,%s]' % (kn.show(p), lo, hi))
        raise NeedEnum(p, int(lo), int(hi))

    def mask(self, st, p, c, bits):
        """p & c for a constant c (two's complement, infinite precision)"""
        out = kn.ZERO
        if c < 0:
            # infinitely many ones from bit k on
            k = (~c).bit_length()
            hi = psub(p, pmod(p, 1 << k, st.b)) if k else p
            return padd(hi, self.mask(st, p, c & ((1 << k) - 1), bits))
        i = 0
        while c >> i:
            if not (c >> i) & 1:
                i += 1
                continue
            j = i
            while (c >> j) & 1:
                j += 1
            part = pmod(fdiv(p, 1 << i, st.b), 1 << (j - i), st.b)
            out = padd(out, pscale(part, 1 << i))
            i = j
        return out

    def bitop(self, st, tok, x, y, bits, signed):
        cx, cy = st.iconst(x), st.iconst(y)
        if cx is not None and cy is not None:
            r = {'&': cx & cy, '|': cx | cy, '^': cx ^ cy, '&^': cx & ~cy}[tok]
            return self.wrapb(st, pc(r), bits, signed, None)
        if tok == '&^':
            if cy is not None:
                return st.mk(self.mask(st, x.p, ~cy, bits))
            a = self.bitop(st, '&', x, y, bits, signed)
            return st.mk(psub(x.p, a.p))
        if cx is not None:
            x, y, cx, cy = y, x, cy, cx
        if cy is not None:
            # small non-negative x: only its low bits matter
            if not signed or cy >= 0 or True:
                a = self.mask(st, x.p, cy, bits)
            if tok == '&':
                lo, hi = st.b.ival(a)
                if cy >= 0:
                    lo, hi = max(lo, 0), min(hi, cy)
                return IV(a, lo, hi)
            if tok == '|':
                r = psub(padd(x.p, pc(cy)), a)
                return self.wrapb(st, r, bits, signed, None)
            if cy not in (0, -1) and signed and x.hi - x.lo >= 1 << 16:
                return xorw_atom(st, x, y)
            r = psub(padd(x.p, pc(cy)), pscale(a, 2))
            return self.wrapb(st, r, bits, signed, None)
        xl, xh = x.lo, x.hi
        yl, yh = y.lo, y.hi
        if xl == NEG or xh == POS:
            xl, xh = st.b.ival(x.p)
        if yl == NEG or yh == POS:
            yl, yh = st.b.ival(y.p)
        if x.p == y.p:
            return {'&': x, '|': x, '^': ic(0)}[tok]
        if tok == '^' and any(k and K.atoms[k[0]].kind == 'u' and K.atoms[k[0]].data[1] == 'xorw'
                              for z in (x, y) if len(z.p.d) <= 2 for k in z.p.d):
            return xorw_atom(st, x, y)
        # disjoint bit ranges
        for (a, al, ah), (b, bl, bh) in (((x, xl, xh), (y, yl, yh)), ((y, yl, yh), (x, xl, xh))):
            if bl >= 0 and bh != POS:
                k = int(bh).bit_length()
                g = kn.content(a.p, True)
                if g % (1 << k) == 0:
                    if tok == '&':
                        return ic(0)
                    r = padd(a.p, b.p)
                    z = (g & -g).bit_length() - 1 if g else k
                    if len(r.d) > 1 and z:
                        st.b.dis[r.key()] = (z, Poly({m: c >> z for m, c in a.p.d.items()}))
                    return self.wrapb(st, r, bits, signed, None, a.lo + b.lo, a.hi + b.hi)
        # sign masks and bits
        if yl >= -1 and yh <= 0:
            x, y, xl, xh, yl, yh = y, x, yl, yh, xl, xh
        if xl >= -1 and xh <= 0 and tok == '&':
            return st.mk(pscale(pmul(x.p, y.p), -1))
        if xl >= -1 and xh <= 0 and tok in ('|', '^'):
            a = pscale(pmul(x.p, y.p), -1)
            return st.mk(psub(padd(x.p, y.p), a if tok == '|' else pscale(a, 2)))
        if 0 <= xl and xh <= 1 and 0 <= yl and yh <= 1:
            a = pmul(x.p, y.p)
            if tok == '&':
                return IV(a, 0, 1)
            if tok == '|':
                return IV(psub(padd(x.p, y.p), a), 0, 1)
            return IV(psub(padd(x.p, y.p), pscale(a, 2)), 0, 1)
        if tok == '^' and 0 <= xl and 0 <= yl and max(xh, yh) <= 255:
            return xor_atom(st.simp(x.p), st.simp(y.p))
        if tok == '|' and 0 <= xl and 0 <= yl and max(xh, yh) <= 255:
            xp, yp = st.simp(x.p), st.simp(y.p)
            if min(xh, yh) == 255 or any(set_kind(p) for p in (xp, yp)):
                return or_atom(xp, yp)
        w = 0
        if 0 <= xl and 0 <= yl and max(xh, yh) < (1 << 16):
            w = max(int(xh).bit_length(), int(yh).bit_length())
        if w and w <= 8:
            a = kn.ZERO
            for i in range(w):
                bx = pmod(fdiv(x.p, 1 << i, st.b), 2, st.b)
                by = pmod(fdiv(y.p, 1 << i, st.b), 2, st.b)
                a = padd(a, pscale(pmul(bx, by), 1 << i))
            top = (1 << w) - 1
            if tok == '&':
                return IV(a, 0, top)
            r = psub(padd(x.p, y.p), a if tok == '|' else pscale(a, 2))
            return IV(r, 0, top)
        if tok == '^' and signed:
            return xorw_atom(st, x, y)
        raise Unsupported('bit operation %s on %r, %r' % (tok, x, y))

    def equal(self, st, x, y):
        if isinstance(x, IV):
            if x.lo > y.hi or y.lo > x.hi:
                return FALSE
            return eq0(psub(x.p, y.p))
        if isinstance(x, tuple) and not isinstance(x, (St, Ar)):
            if x == TRUE:
                return y
            if y == TRUE:
                return x
            if x == FALSE:
                return fnot(y)
            if y == FALSE:
                return fnot(x)
            return for_(fand(x, y), fand(fnot(x), fnot(y)))
        if isinstance(x, (St, Ar)):
            f = TRUE
            for a, b in zip(x, y):
                f = fand(f, self.equal(st, a, b))
                if f == FALSE:
                    return FALSE
            return f
        if isinstance(x, Slice) or isinstance(y, Slice):
            s = x if isinstance(x, Slice) else y
            o = y if isinstance(x, Slice) else x
            if isinstance(s, MaybeNil) or isinstance(o, MaybeNil):
                raise Unsupported('comparison of an element of unknown kind with nil')
            if o is NIL or (isinstance(o, Slice) and o.isnil()):
                return TRUE if s.isnil() else FALSE
            if s.isnil():
                return TRUE if o.isnil() else FALSE
            raise Unsupported('slice comparison')
        if x is NIL or y is NIL:
            for v in (x, y):
                if isinstance(v, Iface) and isinstance(v.v, Opaque) and v.v.name == 'maybe-nil':
                    return v.v.data
            return TRUE if x is y else FALSE
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj in self.readonly or y.obj in self.readonly:
                raise Unsupported('comparison of table entries')
            return TRUE if x == y else FALSE
        if isinstance(x, Str) and isinstance(y, Str):
            if x.c is not None and y.c is not None:
                return TRUE if x.c == y.c else FALSE
            if x.key is not None and x.key == y.key:
                return TRUE
            return ('b', ('streq',) + tuple(sorted((repr(str_key(x)), repr(str_key(y))))))
        if isinstance(x, Iface) and isinstance(y, Iface):
            if x is y:
                return TRUE
            if isinstance(x.v, Ptr) and isinstance(y.v, Ptr):
                return TRUE if x.v == y.v else FALSE
            if isinstance(x.v, Opaque) and isinstance(y.v, Opaque):
                return TRUE if (x.v.name, x.v.data) == (y.v.name, y.v.data) else FALSE
        if isinstance(x, Fn) and isinstance(y, Fn):
            raise Unsupported('function comparison')
        raise Unsupported('comparison of %r and %r' % (x, y))

    # ------------------------------------------------------------ memory
    def deref(self, st, p):
        if p is NIL:
            raise GoPanic('nil pointer dereference')
        if not isinstance(p, Ptr):
            raise Unsupported('deref of %r' % (p,))
        return p

    def seq_elem(self, st, content, off):
        """element of an array content at polynomial offset"""
        c = off.const()
        if isinstance(content, Ar):
            if c is not None:
                if not 0 <= c < len(content):
                    raise Unsupported('read outside of known content')
                return content[c]
            return self.symindex(st, content, off)
        if isinstance(content, Rope):
            return rope_get(st, content, off)
        if isinstance(content, SymAr):
            return content.elem(st, off)
        raise Unsupported('indexing %r' % (content,))

    def symindex(self, st, ar, off):
        p = st.simp(off)
        c = p.const()
        if c is not None:
            return ar[c]
        lo, hi = st.b.ival(p)
        lo, hi = max(0, lo), min(len(ar) - 1, hi)
        lo, hi = int(lo), int(hi)
        vals = [ar[i] for i in range(lo, hi + 1)]
        if all(isinstance(v, tuple) and not isinstance(v, (St, Ar)) for v in vals):
            f = FALSE
            for i, v in zip(range(lo, hi + 1), vals):
                f = for_(f, fand(eq0(psub(p, pc(i))), v))
            return f
        if all(isinstance(v, IV) and v.const() is not None for v in vals) and len(vals) > 1:
            c0, c1 = vals[0].const(), vals[1].const()
            if all(v.const() == c0 + (c1 - c0) * i for i, v in enumerate(vals)):
                return st.mk(padd(pc(c0 - (c1 - c0) * lo), pscale(p, c1 - c0)))
        h = getattr(self, 'table_hook', None)
        if h is not None:
            r = h(st, vals, lo, p)
            if r is not None:
                return r
        raise NeedEnum(p, lo, hi)

    def load(self, st, p):
        v = st.get(p.obj)
        for i in p.path:
            if isinstance(i, int):
                if isinstance(v, Rope):
                    v = rope_get(st, v, pc(i))
                elif isinstance(v, SymAr):
                    v = v.elem(st, pc(i))
                elif i < len(v):
                    v = v[i]
                else:
                    raise Unsupported('read outside of known content')
            else:
                v = self.seq_elem(st, v, i)
        return v

    def store(self, st, p, val):
        if p.obj in self.readonly:
            raise Unsupported('write to a table entry')
        st.heap[p.obj] = self.upd(st, st.get(p.obj), p.path, val)

    def upd(self, st, c, path, val):
        if not path:
            return val
        i = path[0]
        if not isinstance(i, int):
            if isinstance(c, SymAr):
                raise Unsupported('store into a list of unknown length')
            i = st.simp(i)
            k = i.const()
            if isinstance(c, Rope):
                if len(path) > 1:
                    raise Unsupported('nested rope store')
                return rope_set(st, c, i, val)
            if k is None:
                lo, hi = st.b.ival(i)
                raise NeedEnum(i, int(max(0, lo)), int(min(len(c) - 1, hi)))
            i = k
        if isinstance(c, Rope):
            return rope_set(st, c, pc(i), val)
        if isinstance(c, SymAr):
            raise Unsupported('store into a list of unknown length')
        cls = c.__class__
        l = list(c)
        if i >= len(l):
            raise Unsupported('store outside of known content')
        l[i] = self.upd(st, c[i], path[1:], val)
        return cls(l)

    def index_path(self, st, off):
        c = off.const()
        return c if c is not None else off

    def check_index(self, st, idx, ln):
        """raises GoPanic / NeedFork unless 0 <= idx < ln"""
        ip = st.simp(idx.p)
        lp = st.simp(ln.p)
        ci, cl = ip.const(), lp.const()
        if ci is not None and cl is not None:
            if not 0 <= ci < cl:
                raise GoPanic('index out of range')
            return ip
        f1 = fnot(le0(padd(ip, pc(1))))       # ip >= 0
        f2 = le0(padd(psub(ip, lp), pc(1)))   # ip < lp
        for f, quick in ((f1, idx.lo >= 0), (f2, idx.hi < ln.lo)):
            if quick:
                continue
            d = st.decide(f)
            if d is False:
                raise GoPanic('index out of range')
            if d is None:
                raise NeedFork(f)
        return ip

    def slen(self, v):
        if isinstance(v, Slice):
            return v.len
        if isinstance(v, Str):
            return str_len(v)
        if isinstance(v, Ar):
            return ic(len(v))
        raise Unsupported('len of %r' % (v,))

    def slice_content(self, st, s):
        """list of rope pieces of a slice"""
        if s.isnil():
            return ()
        arr = st.get(s.obj)
        for i in s.path:
            arr = arr[i]
        off, ln = st.simp(s.off), st.simp(s.len.p)
        lc = ln.const()
        if lc == 0:
            return ()
        oc = off.const()
        if isinstance(arr, Ar):
            if oc is not None and lc is not None:
                return (('e', tuple(arr[oc:oc + lc])),)
            arr = Rope([('e', tuple(arr))])
        return rope_slice(st, arr, off, ln)

    def write_range(self, st, obj, path, off, pieces, ln):
        """overwrite [off, off+ln) of an array object by pieces"""
        arr = st.get(obj)
        for i in path:
            arr = arr[i]
        off = st.simp(off)
        ln = st.simp(ln)
        lc = ln.const()
        if lc == 0:
            return
        oc = off.const()
        es = pieces_elems(pieces)
        if isinstance(arr, Ar) and oc is not None and es is not None and oc + len(es) <= len(arr):
            l = list(arr)
            l[oc:oc + len(es)] = es
            new = Ar(l)
        else:
            if isinstance(arr, Ar):
                arr = Rope([('e', tuple(arr))])
            tot = rope_len(arr.ps)
            end = padd(off, ln)
            a = rope_slice(st, arr, kn.ZERO, off)
            rest = st.simp(psub(tot, end))
            d = st.decide(le0(rest))
            if d is None:
                raise NeedFork(le0(rest))
            b = () if d else rope_slice(st, arr, end, rest)
            new = rope_norm(tuple(a) + tuple(pieces) + tuple(b))
        if path:
            st.heap[obj] = self.upd(st, st.get(obj), path, new)
        else:
            st.heap[obj] = new

    # ------------------------------------------------------------ running
    def run(self, name, args, st, bind=()):
        f = self.prog.funcs.get(name)
        if f is None or 'blocks' not in f:
            raise Unsupported('no body for ' + name)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion too deep in ' + name)
        try:
            return self.run1(f, args, st, bind)
        finally:
            self.depth -= 1

    def key(self, f, it):
        k = []
        rpo = f['_rpo']
        for h in f['_nest'].get(it.blk, ()):
            k.append(rpo[h])
            c = it.iters.get(h)
            k.append(c[1] if c else 0)
        k.append(rpo.get(it.blk, 0))
        return k

    def run1(self, f, args, st, bind):
        env = {}
        for p, a in zip(f['params'], args):
            env[p['n']] = a
        for p, a in zip(f['free'], bind):
            env['$' + p['n']] = a
        outs = []
        items = []
        cnt = itertools.count()
        mark = obj_mark()

        def push(it):
            heapq.heappush(items, (self.key(f, it), next(cnt), it))
        push(Item(st, env, 0, 0, None, {}, ()))
        while items:
            k, _, it = heapq.heappop(items)
            if it.idx == 0 and items and it.blk in f['_loops']:
                same = [it]
                while items and items[0][0] == k:
                    same.append(heapq.heappop(items)[2])
                if len(same) > 1:
                    for x in same:
                        if x.prev is not None:
                            self.do_phis(f, x)
                    same = self.merge(f, same, mark)
                    if not same:
                        continue
                for x in same[1:]:
                    heapq.heappush(items, (k, next(cnt), x))
                    x.idx = max(x.idx, 0)
                it = same[0]
            if self.looprule and loops.entering(f, it) and loops.attempt(self, f, it, push, outs):
                continue
            self.exec_item(f, it, push, outs)
        return outs

    def do_phis(self, f, it):
        b = f['blocks'][it.blk]
        ins = b['instrs']
        n = 0
        while n < len(ins) and ins[n]['op'] == 'Phi':
            n += 1
        if n and it.prev is not None:
            j = b['preds'].index(it.prev)
            new = {}
            for i in range(n):
                new[ins[i]['n']] = self.val(it, ins[i]['edges'][j])
            it.env.update(new)
        it.prev = None
        it.idx = n

    def rank(self, f, it, target, c):
        """position of an iteration in its loop: paths with the same value of the loop counter meet"""
        ind = f['_ind'].get(target)
        if ind is None:
            return c
        b = f['blocks'][target]
        v = self.val(it, b['instrs'][ind[0]]['edges'][b['preds'].index(it.blk)])
        k = v.p.const() if isinstance(v, IV) else None
        return c if k is None else ind[1] * k

    def goto(self, f, it, target, push, direct=True):
        nest = f['_nest']
        frm = it.blk
        iters = it.iters
        if target in f['_loops'] and frm in f['_loops'][target]:
            iters = dict(iters)
            c = iters[target][0] + 1 if target in iters else 1
            if c > self.MAXITER:
                raise Unsupported('loop bound exceeded in ' + f['name'])
            iters[target] = (c, self.rank(f, it, target, c))
            for h in nest[frm]:
                if h not in nest[target] and h in iters:
                    del iters[h]
        else:
            tn = nest.get(target, ())
            if any(h not in tn for h in iters):
                iters = {h: c for h, c in iters.items() if h in tn}
            if target in f['_ind']:
                iters = dict(iters)
                iters[target] = (0, self.rank(f, it, target, 0))
        it.iters = iters
        it.prev = frm
        it.blk = target
        it.idx = 0

    def exec_item(self, f, it, push, outs):
        """run one item until it ends or forks; forks are pushed"""
        st = it.st
        while True:
            b = f['blocks'][it.blk]
            ins = b['instrs']
            if it.idx == 0:
                self.do_phis(f, it)
            i = it.idx
            n = len(ins)
            jumped = False
            while i < n:
                x = ins[i]
                self.stats.instrs += 1
                op = x['op']
                try:
                    if op == 'If':
                        c = self.val(it, x['x'])
                        d = st.decide(c)
                        if d is None:
                            it.idx = i
                            raise NeedFork(c)
                        self.goto(f, it, b['succs'][0 if d else 1], push)
                        jumped = True
                        break
                    if op == 'Jump':
                        self.goto(f, it, b['succs'][0], push)
                        jumped = True
                        break
                    if op == 'Return':
                        rs = [self.val(it, r) for r in x['results']]
                        outs.append(Outcome(st, 'ret', rs))
                        self.stats.paths += 1
                        return
                    if op == 'Panic':
                        raise GoPanic(self.val(it, x['x']))
                    if op == 'Call':
                        res = self.call(it, x)
                        first = True
                        nxt = []
                        for o in res:
                            if o.kind == 'panic':
                                self.unwind(f, Item(o.st, dict(it.env), it.blk, i, None, it.iters, it.defers),
                                            o.val, push, outs)
                                continue
                            nxt.append(o)
                        if not nxt:
                            return
                        for o in nxt[1:]:
                            e = dict(it.env)
                            if 'n' in x:
                                e[x['n']] = self.callres(x, o.val)
                            push(Item(o.st, e, it.blk, i + 1, None, it.iters, it.defers))
                        o = nxt[0]
                        st = it.st = o.st
                        if 'n' in x:
                            it.env[x['n']] = self.callres(x, o.val)
                        if len(nxt) > 1:
                            it.idx = i + 1
                            push(it)
                            return
                    elif op == 'Defer':
                        c = x['call']
                        fnv = self.val(it, c['fn']) if 'fn' in c else None
                        if fnv is None:
                            raise Unsupported('deferred interface call')
                        it.defers = it.defers + ((fnv, [self.val(it, a) for a in c['args']]),)
                    elif op == 'RunDefers':
                        if it.defers:
                            res = self.run_defers(it.defers, st)
                            it.defers = ()
                            for o in res[1:]:
                                push(Item(o.st, dict(it.env), it.blk, i + 1, None, it.iters, ()))
                            st = it.st = res[0].st
                            if res[0].kind == 'panic':
                                raise Unsupported('panic in deferred function')
                    else:
                        self.simple(it, st, x)
                except NeedFork as e:
                    it.idx = i
                    st2 = st.copy()
                    ok1 = st.assume(e.f)
                    ok2 = st2.assume(fnot(e.f))
                    if not ok1 and not ok2:
                        return
                    if not ok1:
                        it.st = st = st2
                        continue
                    if not ok2:
                        continue
                    it2 = Item(st2, dict(it.env), it.blk, i, it.prev, it.iters, it.defers)
                    st.trace = st.trace + (('%s' % (x.get('pos') or f['name']), e.f),)
                    st2.trace = st2.trace + (('%s' % (x.get('pos') or f['name']), fnot(e.f)),)
                    self.stats.paths += 1
                    self.tick()
                    push2(push, it2)
                    push2(push, it)
                    return
                except NeedEnum as e:
                    it.idx = i
                    for v in range(e.lo, e.hi + 1):
                        s2 = st.copy()
                        fo = eq0(psub(e.p, pc(v)))
                        if s2.decide(fo) is False or not s2.assume(fo):
                            continue
                        s2.trace = s2.trace + (('%s' % (x.get('pos') or f['name']), fo),)
                        push2(push, Item(s2, dict(it.env), it.blk, i, it.prev, it.iters, it.defers))
                    self.tick()
                    return
                except GoPanic as e:
                    it.idx = i
                    self.unwind(f, it, e.val, push, outs, x.get('pos'))
                    return
                i += 1
            if not jumped:
                raise Unsupported('fell off block in ' + f['name'])
            if it.blk in f['_loops'] or len(it.iters) == 0 and False:
                self.tick()
                push(it)
                return

    def tick(self):
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Unsupported('time limit')

    def callres(self, x, val):
        rs = x['call']['results']
        if len(rs) == 0:
            return None
        if len(rs) == 1:
            return val[0]
        return St(val)

    def run_defers(self, defers, st):
        sts = [Outcome(st, 'ret', [])]
        for fnv, args in reversed(defers):
            nxt = []
            for o in sts:
                nxt.extend(self.invoke_fn(fnv, args, o.st, None))
            sts = nxt
        return sts

    def unwind(self, f, it, val, push, outs, pos=None):
        st = it.st
        if pos:
            st.trace = st.trace + (('panic at %s' % pos, TRUE),)
        if it.defers:
            st.panicking = (val,)
            for o in self.run_defers(it.defers, st):
                if o.kind == 'panic' or o.st.panicking is not None:
                    v = o.st.panicking[0] if o.st.panicking is not None else o.val
                    o.st.panicking = None
                    outs.append(Outcome(o.st, 'panic', v))
                else:
                    rb = f.get('recover')
                    if rb is None:
                        rs = [self.prog.zero(t) for t in f['results']]
                        outs.append(Outcome(o.st, 'ret', rs))
                    else:
                        push(Item(o.st, dict(it.env), rb, 0, None, {}, ()))
            return
        outs.append(Outcome(st, 'panic', val))

    # ------------------------------------------------------------ instructions
    def simple(self, it, st, x):
        op = x['op']
        env = it.env
        if op == 'BinOp':
            a, b = self.val(it, x['x']), self.val(it, x['y'])
            env[x['n']] = self.binop(st, x['tok'], a, b, x['t'], x['x'].get('t'), x.get('pos'))
        elif op == 'UnOp':
            a = self.val(it, x['x'])
            tok = x['tok']
            if tok == '*':
                v = self.load(st, self.deref(st, a))
                if isinstance(v, BI):
                    # copying the struct shares the words of the number
                    v = BI(v.v, True, v.f)
                    if a.obj in st.heap:
                        self.store(st, a, v)
                env[x['n']] = v
            elif tok == '-':
                env[x['n']] = self.wrap(st, pscale(a.p, -1), x['t'], x.get('pos'), -a.hi, -a.lo)
            elif tok == '!':
                env[x['n']] = fnot(a)
            elif tok == '^':
                env[x['n']] = self.wrap(st, psub(pc(-1), a.p), x['t'], None)
            else:
                raise Unsupported('unop ' + tok)
        elif op == 'FieldAddr':
            p = self.deref(st, self.val(it, x['x']))
            env[x['n']] = Ptr(p.obj, p.path + (x['f'],))
        elif op == 'IndexAddr':
            a = self.val(it, x['x'])
            i = self.val(it, x['i'])
            if isinstance(a, Slice):
                ip = self.check_index(st, i, a.len)
                env[x['n']] = Ptr(a.obj, a.path + (self.index_path(st, st.simp(padd(a.off, ip))),))
            else:
                p = self.deref(st, a)
                t = self.prog.under(x['x']['t'])
                n = self.prog.under(t['elem'])['len']
                ip = self.check_index(st, i, ic(n))
                env[x['n']] = Ptr(p.obj, p.path + (self.index_path(st, ip),))
        elif op == 'Store':
            p = self.deref(st, self.val(it, x['addr']))
            self.store(st, p, self.val(it, x['x']))
        elif op == 'Alloc':
            o = new_obj()
            t = self.prog.t(x['t'])
            st.heap[o] = self.prog.zero(t['elem'])
            env[x['n']] = Ptr(o)
        elif op == 'Extract':
            env[x['n']] = self.val(it, x['x'])[x['i']]
        elif op == 'Field':
            env[x['n']] = self.val(it, x['x'])[x['f']]
        elif op == 'Index':
            a = self.val(it, x['x'])
            i = self.val(it, x['i'])
            ip = self.check_index(st, i, self.slen(a))
            if isinstance(a, Str):
                env[x['n']] = str_index(st, a, ip)
            else:
                env[x['n']] = self.seq_elem(st, a, ip)
        elif op == 'Lookup':
            a = self.val(it, x['x'])
            if isinstance(a, Str):
                i = self.val(it, x['i'])
                ip = self.check_index(st, i, self.slen(a))
                env[x['n']] = str_index(st, a, ip)
            else:
                raise Unsupported('map lookup')
        elif op == 'Convert':
            env[x['n']] = self.convert(st, self.val(it, x['x']), x['x'].get('t'), x['t'])
        elif op in ('ChangeType', 'ChangeInterface'):
            env[x['n']] = self.val(it, x['x'])
        elif op == 'MakeInterface':
            v = self.val(it, x['x'])
            env[x['n']] = Iface(self.prog.t(x['x']['t'])['str'], v)
        elif op == 'MakeClosure':
            env[x['n']] = Fn(x['fn']['n'], tuple(self.val(it, v) for v in x['bind']))
        elif op == 'MakeSlice':
            env[x['n']] = self.make_slice(st, x)(it)
        elif op == 'Slice':
            env[x['n']] = self.do_slice(it, st, x)
        elif op == 'TypeAssert':
            v = self.val(it, x['x'])
            at = self.prog.t(x['at'])
            if v is NIL:
                ok = False
            elif isinstance(v, Iface):
                if self.prog.under(x['at'])['kind'] == 'interface':
                    if at['str'] in ('interface{}', 'any') or v.t in self.prog.methods:
                        ok = True
                    else:
                        raise Unsupported('type assertion to interface')
                else:
                    ok = v.t == at['str']
            else:
                raise Unsupported('type assertion')
            if not ok and not x.get('commaok'):
                raise GoPanic('type assertion failed')
            r = (v if self.prog.under(x['at'])['kind'] == 'interface' else v.v) if ok else self.prog.zero(x['at'])
            env[x['n']] = St([r, TRUE if ok else FALSE]) if x.get('commaok') else r
        elif op == 'SliceToArrayPointer':
            a = self.val(it, x['x'])
            n = self.prog.under(self.prog.under(x['t'])['elem'])['len']
            d = st.decide(le0(psub(pc(n), a.len.p)))
            if d is None:
                raise NeedFork(le0(psub(pc(n), a.len.p)))
            if not d:
                raise GoPanic('slice to array')
            raise Unsupported('SliceToArrayPointer')
        else:
            raise Unsupported('instruction ' + op)

    def make_slice(self, st, x):
        def go(it):
            ln = self.val(it, x['len'])
            cp = self.val(it, x['cap'])
            et = self.prog.under(x['t'])['elem']
            lp = st.simp(ln.p)
            if ln.lo < 0:
                d = st.decide(le0(pscale(lp, -1)))
                if d is None:
                    raise NeedFork(le0(pscale(lp, -1)))
                if d is False:
                    raise GoPanic('makeslice: len out of range')
            c = lp.const()
            cc = st.iconst(cp)
            o = new_obj()
            z = self.prog.zero(et)
            if c is not None and (cc is not None):
                if cc < c:
                    raise GoPanic('makeslice: cap out of range')
                st.heap[o] = Ar([z] * cc)
            else:
                cpp = st.simp(cp.p)
                if cpp != lp:
                    d = st.decide(le0(psub(lp, cpp)))
                    if d is not True:
                        raise Unsupported('make with symbolic capacity')
                st.heap[o] = Rope([('k', z, cpp)])
            return Slice(o, (), kn.ZERO, IV(lp, max(0, ln.lo), ln.hi), IV(st.simp(cp.p), cp.lo, cp.hi))
        return go

    def do_slice(self, it, st, x):
        a = self.val(it, x['x'])
        lo = self.val(it, x['lo']) if x.get('lo') else ic(0)
        if isinstance(a, Str):
            hi = self.val(it, x['hi']) if x.get('hi') else str_len(a)
            return str_slice(self, st, a, lo, hi)
        if isinstance(a, Slice):
            ln, cp = a.len, a.cap
            base = a
        else:
            p = self.deref(st, a)
            n = self.prog.under(self.prog.under(x['x']['t'])['elem'])['len']
            ln = cp = ic(n)
            base = Slice(p.obj, p.path, kn.ZERO, ln, cp)
        hi = self.val(it, x['hi']) if x.get('hi') else ln
        mx = self.val(it, x['max']) if x.get('max') else cp
        lp, hp, mp = st.simp(lo.p), st.simp(hi.p), st.simp(mx.p)
        for f in (le0(pscale(lp, -1)), le0(psub(lp, hp)), le0(psub(hp, mp)), le0(psub(mp, st.simp(cp.p)))):
            d = st.decide(f)
            if d is None:
                raise NeedFork(f)
            if d is False:
                raise GoPanic('slice bounds out of range')
        if base.obj is None:
            return NILSLICE
        return (MaybeNil if isinstance(base, MaybeNil) else Slice)(base.obj, base.path, st.simp(padd(base.off, lp)),
                     st.mk(psub(hp, lp)), st.mk(psub(mp, lp)))

    def convert(self, st, v, ft, tt):
        ii = self.prog.intinfo(tt)
        t = self.prog.under(tt)
        if ii and isinstance(v, IV):
            return self.wrap(st, v.p, tt, None, v.lo, v.hi)
        if t['kind'] == 'basic' and t.get('name', t['str']) == 'string':
            if isinstance(v, Str):
                return v
            if isinstance(v, Slice):
                return str_from_bytes(self, st, v)
        if t['kind'] == 'slice' and isinstance(v, Str):
            return bytes_from_str(self, st, v)
        if isinstance(v, (Ptr, Nil)):
            return v
        raise Unsupported('conversion to %s' % self.prog.t(tt)['str'])

    # ------------------------------------------------------------ calls
    def call(self, it, x):
        c = x['call']
        st = it.st
        args = [self.val(it, a) for a in c['args']]
        if 'invoke' in c:
            r = self.val(it, c['recv'])
            return self.invoke_method(r, c['invoke'], args, st, x)
        return self.invoke_fn(self.val(it, c['fn']), args, st, x)

    def invoke_method(self, r, m, args, st, x):
        if r is NIL:
            raise GoPanic('nil interface method call')
        if not isinstance(r, Iface):
            raise Unsupported('method call on %r' % (r,))
        im = self.invoke_models.get((r.t, m))
        if im is not None:
            return im(self, st, [r.v] + args, x)
        tab = self.prog.methods.get(r.t)
        if tab is None or m not in tab:
            raise Unsupported('method %s.%s' % (r.t, m))
        return self.invoke_fn(Fn(tab[m]), [r.v] + args, st, x)

    def invoke_fn(self, fn, args, st, x):
        if fn is NIL:
            raise GoPanic('nil function call')
        if not isinstance(fn, Fn):
            raise Unsupported('call of %r' % (fn,))
        n = fn.name
        if n.startswith('builtin.'):
            return self.builtin(n[8:], args, st, x)
        m = self.models.get(n)
        if m is not None:
            self.assumed.add(n)
            r = m(self, st, args, x)
            return r
        if self.use_contracts:
            ct = self.contracts.get(n)
            if ct is not None and n != self.cur:
                r = ct.apply(self, st, args, x)
                if r is not None:
                    self.applied.add(n)
                    return r
        f = self.prog.funcs.get(n)
        if f is None or 'blocks' not in f:
            if n.endswith('.init') and '(' not in n:
                # initialisation of a dependency: touches nothing of this package
                self.assumed.add(n)
                return [Outcome(st, 'ret', [])]
            raise Unsupported('call of external function ' + n)
        self.inlined.add(n)
        return self.run(n, args, st, fn.bind)

    def builtin(self, n, args, st, x):
        if n == 'len':
            return ret(st, self.slen(args[0]))
        if n == 'cap':
            return ret(st, args[0].cap if isinstance(args[0], Slice) else self.slen(args[0]))
        if n == 'append':
            return self.do_append(st, args[0], args[1], x)
        if n == 'copy':
            d, s = args
            sl = str_len(s) if isinstance(s, Str) else s.len
            f = le0(psub(st.simp(sl.p), st.simp(d.len.p)))
            r = st.decide(f)
            if r is None:
                raise NeedFork(f)
            cnt = sl if r else d.len
            if isinstance(s, Str):
                s = bytes_from_str(self, st, s)
            if not d.isnil() and not s.isnil():
                src = Slice(s.obj, s.path, s.off, cnt, s.cap)
                ps = self.slice_content(st, src)
                self.write_range(st, d.obj, d.path, d.off, ps, cnt.p)
            return ret(st, cnt)
        if n == 'recover':
            if st.panicking is not None:
                v = st.panicking[0]
                st.panicking = None
                if not isinstance(v, Iface):
                    v = Iface('runtime.Error', Opaque('panic', str(v)))
                return ret(st, v)
            return ret(st, NIL)
        if n in ('print', 'println'):
            return [Outcome(st, 'ret', [])]
        if n in ('min', 'max'):
            a = args[0]
            for b in args[1:]:
                f = le0(psub(a.p, b.p))
                d = st.decide(f)
                if d is None:
                    raise NeedFork(f)
                a = (a if d else b) if n == 'min' else (b if d else a)
            return ret(st, a)
        if n == 'ssa:wrapnilchk':
            if args[0] is NIL:
                raise GoPanic('nil receiver')
            return ret(st, args[0])
        raise Unsupported('builtin ' + n)

    def do_append(self, st, a, b, x):
        if isinstance(b, Str):
            b = bytes_from_str(self, st, b)
        if b.isnil() or st.iconst(b.len) == 0:
            return ret(st, a)
        ps = self.slice_content(st, b)
        tot = st.simp(padd(a.len.p, b.len.p))
        f = le0(psub(tot, st.simp(a.cap.p)))
        d = st.decide(f) if not a.isnil() else False
        if d is None:
            raise NeedFork(f)
        if d:
            off = st.simp(padd(a.off, a.len.p))
            self.write_range(st, a.obj, a.path, off, ps, st.simp(b.len.p))
            return ret(st, Slice(a.obj, a.path, a.off, st.mk(tot), a.cap))
        pre = self.slice_content(st, a)
        o = new_obj()
        pieces = rope_norm(tuple(pre) + tuple(ps))
        es = pieces_elems(pieces.ps)
        st.heap[o] = Ar(es) if es is not None else pieces
        cap = K.fresh('cap', 0, None)
        st.b.record(psub(pa(cap), tot), 0, POS)
        st.assume(le0(psub(tot, pa(cap))))
        ln = st.mk(tot)
        return ret(st, Slice(o, (), kn.ZERO, ln, IV(pa(cap), max(0, ln.lo), POS)))

    # ------------------------------------------------------------ merging
    def merge(self, f, items, mark):
        import merge as mg
        return mg.merge_items(self, f, items, mark)


def push2(push, it):
    push(it)


def ret(st, *vals):
    return [Outcome(st, 'ret', list(vals))]


# ---------------------------------------------------------------- ropes
def piece_len(pc_):
    t = pc_[0]
    if t == 'e':
        return pc(len(pc_[1]))
    if t == 's':
        return pc_[3]
    return pc_[2]


def rope_len(ps):
    r = kn.ZERO
    for p in ps:
        r = padd(r, piece_len(p))
    return r


def pieces_elems(ps):
    out = []
    for p in ps:
        if p[0] == 'e':
            out.extend(p[1])
        elif p[0] == 'k' and p[2].const() is not None:
            out.extend([p[1]] * p[2].const())
        elif p[0] == 's' and p[3].const() is not None and p[3].const() <= 4096:
            for i in range(p[3].const()):
                out.append(seq_byte(p[1], padd(p[2], pc(i))))
        else:
            return None
    return out


def seq_byte(key, off):
    a = K.func('byte', (key, off.key()), 0, 255)
    if a.arg is None:
        a.arg = (key, off)
    return IV(pa(a), 0, 255)


def catlen(name, k):
    """total length of the first k byte strings of the list"""
    if k.const() == 0:
        return kn.ZERO
    a = K.func('catlen', (name, k.key()), 0, None)
    if a.arg is None:
        a.arg = (name, k)
    return pa(a)


def _rebuild_catlen(a, env, cache, b):
    k = kn.subst(a.arg[1], env, cache, b)
    return None if k is a.arg[1] or k == a.arg[1] else catlen(a.arg[0], k)


kn.REBUILD['catlen'] = _rebuild_catlen


class SymAr:
    """a list of byte strings of any length: element k is bytes catlen(k) to catlen(k+1) of one sequence"""
    def __init__(self, name, pool):
        self.name, self.pool, self.objs = name, list(pool), {}

    def elem(self, st, k):
        k = st.simp(k)
        o = self.objs.get(k.key())
        lo = catlen(self.name, k)
        ln = psub(catlen(self.name, padd(k, pc(1))), lo)
        if o is None:
            if not self.pool:
                raise Unsupported('too many elements of a list of unknown length')
            o = self.objs[k.key()] = self.pool.pop()
            st.base[o] = Rope((('s', ('cat', self.name), lo, ln),))
        st.b.record(ln, 0, 1 << 40)
        l = IV(ln, 0, 1 << 40)
        return MaybeNil(o, (), kn.ZERO, l, l)


def _rebuild_byte(a, env, cache, b):
    key, off = a.arg
    o2 = kn.subst(off, env, cache, b)
    if o2 is off or o2 == off:
        return None
    return seq_byte(key, o2).p


kn.REBUILD['byte'] = _rebuild_byte


def rope_norm(ps):
    out = []
    for p in ps:
        l = piece_len(p)
        if l.const() == 0:
            continue
        if p[0] == 'k' and l.const() is not None:
            p = ('e', (p[1],) * l.const())
        if out:
            q = out[-1]
            if q[0] == 'e' and p[0] == 'e':
                out[-1] = ('e', q[1] + p[1])
                continue
            if q[0] == 's' and p[0] == 's' and q[1] == p[1] and padd(q[2], q[3]) == p[2]:
                out[-1] = ('s', q[1], q[2], padd(q[3], p[3]))
                continue
            if q[0] == 'k' and p[0] == 'k' and q[1] is p[1]:
                out[-1] = ('k', q[1], padd(q[2], p[2]))
                continue
        out.append(p)
    return Rope(out)


def rope_split(st, ps, at):
    """split pieces at offset (Poly): (left, right)"""
    at = st.simp(at)
    if at.const() is None:
        for k in at.d:
            for i in k:
                if K.atoms[i].kind == 'u' and K.atoms[i].data[1] == 'byte':
                    # an offset computed from data: one case per value
                    lo, hi = st.b.ival(pa(K.atoms[i]))
                    raise NeedEnum(pa(K.atoms[i]), int(lo), int(hi))
    pos = kn.ZERO
    left = []
    ps = list(ps)
    while ps:
        rem = st.simp(psub(at, pos))
        if rem.const() == 0:
            return tuple(left), tuple(ps)
        p = ps[0]
        l = st.simp(piece_len(p))
        diff = st.simp(psub(rem, l))      # >=0: whole piece is on the left
        dc = diff.const()
        d = st.decide(le0(pscale(diff, -1))) if dc is None else dc >= 0
        if d is None:
            z = st.decide(eq0(rem))
            if z:
                return tuple(left), tuple(ps)
            raise NeedFork(le0(pscale(diff, -1)))
        if d:
            left.append(p)
            ps.pop(0)
            pos = padd(pos, l)
            continue
        # inside the piece
        if st.decide(eq0(rem)) is True:
            return tuple(left), tuple(ps)
        if p[0] == 'e':
            k = rem.const()
            if k is None:
                raise NeedEnum(rem, 0, len(p[1]))
            a, b = ('e', p[1][:k]), ('e', p[1][k:])
        elif p[0] == 's':
            a, b = ('s', p[1], p[2], rem), ('s', p[1], padd(p[2], rem), psub(l, rem))
        else:
            a, b = ('k', p[1], rem), ('k', p[1], psub(l, rem))
        left.append(a)
        return tuple(left), (b,) + tuple(ps[1:])
    return tuple(left), ()


def rope_slice(st, r, off, ln):
    ps = r.ps if isinstance(r, Rope) else r
    if off.const() != 0:
        _, ps = rope_split(st, ps, off)
    a, _ = rope_split(st, ps, ln)
    return rope_norm(a).ps


def rope_get(st, r, off):
    _, ps = rope_split(st, r.ps, off)
    if not ps:
        raise Unsupported('read outside of known content')
    p = ps[0]
    if p[0] == 'e':
        return p[1][0]
    if p[0] == 's':
        return seq_byte(p[1], st.simp(p[2]))
    return p[1]


def rope_set(st, r, off, val):
    a, ps = rope_split(st, r.ps, off)
    if not ps:
        raise Unsupported('write outside of known content')
    _, b = rope_split(st, ps, pc(1))
    return rope_norm(a + (('e', (val,)),) + b)


def gather(st, ps):
    """single elements that are consecutive bytes of a sequence become part of it"""
    out = []

    def push(p):
        if out and p[0] == 's' and out[-1][0] == 's' and out[-1][1] == p[1] and \
                st.simp(psub(padd(out[-1][2], out[-1][3]), p[2])).const() == 0:
            out[-1] = ('s', p[1], out[-1][2], st.simp(padd(out[-1][3], p[3])))
        elif out and p[0] == 'e' and out[-1][0] == 'e':
            out[-1] = ('e', out[-1][1] + p[1])
        else:
            out.append(p)
    for p in ps:
        if p[0] != 'e':
            push(p)
            continue
        for v in p[1]:
            q = st.simp(v.p)
            if len(q.d) == 1:
                (k, c), = q.d.items()
                if c == 1 and len(k) == 1 and K.atoms[k[0]].kind == 'u' and K.atoms[k[0]].data[1] == 'byte':
                    key, off = K.atoms[k[0]].arg
                    push(('s', key, off, pc(1)))
                    continue
            push(('e', (q,)))
    return out


def pieces_key(st, ps):
    out = []
    if st.env:
        ps = [p if p[0] == 'e' else p[:-1] + (st.simp(p[-1]),) for p in ps]
    for p in gather(st, rope_norm(ps).ps):
        if p[0] == 'e':
            out.append(('e', tuple(q.key() for q in p[1])))
        elif p[0] == 's':
            out.append(('s', p[1], st.simp(p[2]).key(), st.simp(p[3]).key()))
        else:
            out.append(('k', p[1].p.key(), st.simp(p[2]).key()))
    return tuple(out)


# ---------------------------------------------------------------- xor atoms
def xor_atom(a, b):
    ops = {}
    const = 0
    for p in (a, b):
        for q in xor_parts(p):
            c = q.const()
            if c is not None:
                const ^= c
                continue
            if q.key() in ops:
                del ops[q.key()]
            else:
                ops[q.key()] = q
    if not ops:
        return ic(const)
    if const:
        ops[pc(const).key()] = pc(const)
    if len(ops) == 1:
        q = list(ops.values())[0]
        return IV(q, 0, 255)
    at = K.func('xor', frozenset(ops), 0, 255)
    if at.arg is None:
        at.arg = tuple(ops.values())
    return IV(pa(at), 0, 255)


def xor_parts(p):
    if len(p.d) == 1:
        (k, c), = p.d.items()
        if c == 1 and len(k) == 1:
            a = K.atoms[k[0]]
            if a.kind == 'u' and a.data[1] == 'xor':
                return list(a.arg)
    return [p]


def _rebuild_xor(a, env, cache, b):
    new = [kn.subst(p, env, cache, b) for p in a.arg]
    if all(x is y or x == y for x, y in zip(new, a.arg)):
        return None
    r = new[0]
    for q in new[1:]:
        r = xor_atom(r, q).p
    return r


kn.REBUILD['xor'] = _rebuild_xor


# ---------------------------------------------------------------- xor of words
def xorw_parts(p):
    if len(p.d) <= 2:
        c0 = p.d.get((), 0)
        for k, c in p.d.items():
            a = K.atoms[k[0]] if len(k) == 1 else None
            if a is not None and a.kind == 'u' and a.data[1] == 'xorw' and len(p.d) == 1 + (c0 != 0):
                if c == 1 and c0 == 0:
                    return list(a.arg)
                if c == -1 and c0 == -1:          # -1 - x = x ^ -1
                    return list(a.arg) + [pc(-1)]
    return [p]


def xorw_make(polys):
    ops, const = {}, 0
    for p in polys:
        c = p.const()
        if c is not None:
            const ^= c
        elif p.key() in ops:
            del ops[p.key()]
        else:
            ops[p.key()] = p
    if not ops:
        return pc(const)
    if const in (0, -1) and len(ops) == 1:
        q = list(ops.values())[0]
        return q if const == 0 else psub(pc(-1), q)
    if const:
        ops[pc(const).key()] = pc(const)
    w, neg = 0, False
    for q in ops.values():
        lo, hi = kn.NOB.ival(q)
        if lo == NEG or hi == POS:
            w = None
            break
        neg = neg or lo < 0
        w = max(w, int(hi).bit_length(), int(-lo - 1).bit_length() if lo < 0 else 0)
    at = K.func('xorw', frozenset(ops), None if w is None else -(1 << w) if neg else 0, None if w is None else (1 << w) - 1)
    if at.arg is None:
        at.arg = tuple(ops.values())
    return pa(at)


def xorw_atom(st, x, y):
    """exclusive or of two's complement numbers: a set of operands, equal ones cancel"""
    r = xorw_make(xorw_parts(st.simp(x.p)) + xorw_parts(st.simp(y.p)))
    return st.mk(r)


def _rebuild_xorw(a, env, cache, b):
    new = [kn.subst(p, env, cache, b) for p in a.arg]
    if all(x is y or x == y for x, y in zip(new, a.arg)):
        return None
    return xorw_make([q for p in new for q in xorw_parts(p)])


kn.REBUILD['xorw'] = _rebuild_xorw


# ---------------------------------------------------------------- or atoms
def set_kind(p):
    if len(p.d) == 1:
        (k, c), = p.d.items()
        if c == 1 and len(k) == 1:
            a = K.atoms[k[0]]
            if a.kind == 'u' and a.data[1] in ('xor', 'or'):
                return a
    return None


def or_atom(a, b):
    """bitwise or of bytes; only its being zero is known"""
    ops = {}
    const = 0
    for p in (a, b):
        at = set_kind(p)
        for q in (at.arg if at is not None and at.data[1] == 'or' else [p]):
            c = q.const()
            if c is not None:
                const |= c
            else:
                ops[q.key()] = q
    if const:
        ops[pc(const).key()] = pc(const)
    if not ops:
        return ic(0)
    if len(ops) == 1:
        q = list(ops.values())[0]
        return IV(q, 0, 255)
    at = K.func('or', frozenset(ops), const, 255)
    if at.arg is None:
        at.arg = tuple(ops.values())
    return IV(pa(at), const, 255)


def _rebuild_or(a, env, cache, b):
    new = [kn.subst(p, env, cache, b) for p in a.arg]
    if all(x is y or x == y for x, y in zip(new, a.arg)):
        return None
    r = new[0]
    for q in new[1:]:
        r = or_atom(r, q).p
    return r


kn.REBUILD['or'] = _rebuild_or


# ---------------------------------------------------------------- strings
def str_key(s):
    return s.key if s.c is None else ('lit', s.c)


def str_len(s):
    if s.c is not None:
        return ic(len(s.c.encode('utf-8')))
    return s.len


def str_cat(a, b):
    if a.c is not None and b.c is not None:
        return Str(c=a.c + b.c)
    if a.c == '':
        return b
    if b.c == '':
        return a
    la, lb = str_len(a), str_len(b)
    ka = str_key(a)[1] if str_key(a)[0] == 'cat' else (str_key(a),)
    kb = str_key(b)[1] if str_key(b)[0] == 'cat' else (str_key(b),)
    return Str(key=('cat', tuple(ka) + tuple(kb)), ln=IV(padd(la.p, lb.p), la.lo + lb.lo, la.hi + lb.hi))


def str_index(st, s, ip):
    c = ip.const()
    if s.c is not None and c is not None:
        return ic(s.c.encode('utf-8')[c])
    return seq_byte(('str', str_key(s)), ip)


def str_slice(ex, st, s, lo, hi):
    a, b = st.iconst(lo), st.iconst(hi)
    if s.c is not None and a is not None and b is not None:
        e = s.c.encode('utf-8')
        if not 0 <= a <= b <= len(e):
            raise GoPanic('slice bounds out of range')
        return Str(c=e[a:b].decode('utf-8', 'surrogateescape'))
    raise Unsupported('slice of a symbolic string')


def str_from_bytes(ex, st, s):
    ps = ex.slice_content(st, s)
    es = pieces_elems(ps)
    if es is not None and all(e.const() is not None for e in es):
        return Str(c=bytes(e.const() for e in es).decode('utf-8', 'surrogateescape'))
    return Str(key=('bytes', pieces_key(st, ps)), ln=s.len)


def bytes_from_str(ex, st, s):
    if s.c is not None:
        e = s.c.encode('utf-8', 'surrogateescape')
        o = new_obj()
        st.heap[o] = Ar([ic(b) for b in e])
        return Slice(o, (), kn.ZERO, ic(len(e)), ic(len(e)))
    o = new_obj()
    l = str_len(s)
    st.heap[o] = Rope([('s', ('str', str_key(s)), kn.ZERO, l.p)])
    return Slice(o, (), kn.ZERO, l, l)


import loops     # noqa: E402
