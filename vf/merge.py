"""Joining the states of several paths that meet at a loop header.

The joined state keeps only what holds on every path: facts, bounds and equations known to all, and
for every location a value that is shown to describe the location on each of the paths."""
import kernel as kn
from kernel import K, Poly, FP, pc, pa, padd, psub, pscale, pmul, NEG, POS, Bounds
from state import *
from exec import str_key


class NoMerge(Exception):
    pass


def is_fe(v):
    return isinstance(v, St) and len(v) == 1 and isinstance(v[0], Ar) and len(v[0]) == 10 and \
        all(isinstance(x, IV) for x in v[0])


def ge_kind(ex, st, v):
    cx = ex.cx
    if not isinstance(v, St) or len(v) != len(cx.ge):
        return None
    c = v[cx.ge['coordinateSystem']]
    if not isinstance(c, IV) or c.p.const() is None:
        return None
    c = c.p.const()
    if not isinstance(v[cx.ge['X']], Ptr):
        return None
    return c


class Grouper:
    """discrete structure reachable from the live values"""
    def __init__(self, ex, it, mark, live, exact=False):
        self.ex, self.st, self.mark, self.exact = ex, it.st, mark, exact
        self.num = {}
        out = []
        for n in live:
            if n in it.env:
                out.append((n, self.key(it.env[n])))
        self.k = tuple(out)

    def obj(self, o):
        if o < self.mark:
            return ('old', o)
        if o in self.num:
            return ('n', self.num[o])
        self.num[o] = len(self.num)
        v = self.st.get(o)
        return ('n', self.num[o], self.key(v))

    def key(self, v):
        if isinstance(v, IV):
            return self.st.simp(v.p).key() if self.exact else 'i'
        if v is NIL:
            return 'nil'
        if isinstance(v, Ptr):
            if v.obj >= self.mark and not v.path:
                c = None if self.exact else ge_kind(self.ex, self.st, self.st.get(v.obj))
                if c in (1, 2):
                    s = self.st.get(v.obj)
                    g = self.ex.cx.ge
                    return ('ge', c, self.key(s[g['precomputedForSingle']]), self.key(s[g['precomputedForDouble']]))
            return ('p', self.obj(v.obj), v.path)
        if isinstance(v, Slice):
            if v.isnil():
                return 'nils'
            return ('s', self.obj(v.obj), v.path, v.off.key(), self.st.simp(v.len.p).key(), self.st.simp(v.cap.p).key())
        if is_fe(v) and not self.exact:
            return 'fe'
        if self.ex.template is not None and self.ex.template.is_array(v):
            return 'tmpl'
        if isinstance(v, (St, Ar)):
            return (type(v).__name__, len(v)) + tuple(self.key(x) for x in v)
        if isinstance(v, BI):
            return ('bi', self.key(v.v)) if self.exact else 'bi'
        if isinstance(v, tuple):
            return ('f', fkey(self.st.fsimplify(v)))
        if isinstance(v, Fn):
            return ('fn', v.name) + tuple(self.key(x) for x in v.bind)
        if isinstance(v, Str):
            return ('str', str_key(v))
        if isinstance(v, Opaque):
            return ('o', v.name)
        if isinstance(v, Iface):
            return ('if', v.t, self.key(v.v))
        return ('other', id(v))


class Invariant(Exception):
    """the loop invariant is not preserved"""
    def __init__(self, what, trace):
        Exception.__init__(self, what)
        self.trace = trace


class Template:
    """loop invariant for a function that rewrites an array of n small integers r:
    sum r[j]*2^j + delta = V, with a constant delta, and bounds for every r[j]"""
    def __init__(self, V, hi, n, facts, env, b):
        self.V, self.hi, self.n = V, hi, n
        self.facts, self.env, self.b = facts, env, b
        self.dropped = 0
        self.memo = {}

    def is_array(self, v):
        return isinstance(v, Ar) and len(v) == self.n and all(isinstance(x, IV) for x in v)

    def array(self, st, mark):
        """the only local array of the right shape"""
        os = [o for o, v in st.heap.items() if o >= mark and self.is_array(v)]
        return os[0] if len(os) == 1 else None

    def delta(self, st, v):
        """constant delta with sum v[j]*2^j + delta = V, or None"""
        c = self.memo.get(id(st))
        if c is not None and c[0] is st and c[1] is v:
            return c[2]
        r = self.delta1(st, v)
        self.memo[id(st)] = (st, v, r)
        return r

    def delta1(self, st, v):
        g = st.ghost.get('tmpl')
        if g is None:
            e = kn.ZERO
            for j, x in enumerate(v):
                e = padd(e, pscale(st.simp(x.p), 1 << j))
            return psub(st.simp(self.V), st.simp(e)).const()
        snap, d = g
        e = {(): d}
        for j, (x, y) in enumerate(zip(v, snap)):
            if x is not y:
                for p, c in ((y.p, 1 << j), (x.p, -(1 << j))):
                    for k, a in simp1(st, p).d.items():
                        e[k] = e.get(k, 0) + a * c
        return Poly({k: c for k, c in e.items() if c}).const()

    def feasible(self, st, v, d):
        """can sum v[j]*2^j + d lie between 0 and hi (elements are int8)"""
        def low(s, sign, lim):
            # s + sum of the smallest values <= lim ?
            for j in range(self.n - 1, -1, -1):
                x = v[j]
                l, h = (x.lo, x.hi) if x.lo == x.hi else st.b.ival(simp1(st, x.p))
                s += int(max(l, x.lo) if sign > 0 else -min(h, x.hi)) << j
                if s - (128 << j) > lim:
                    return False
                if s + (128 << j) <= lim:
                    return True
            return s <= lim
        return low(d, 1, self.hi) and low(-d, -1, 0)

    def keep(self, st, mark):
        """is the path possible at all"""
        o = self.array(st, mark)
        if o is None:
            return True
        d = self.delta(st, st.heap[o])
        if d is None:
            raise Invariant('the sum of the digits has lost its relation to the scalar', st.trace)
        if not self.feasible(st, st.heap[o], d):
            self.dropped += 1
            return False
        return True

    def pattern(self, it, mark):
        """near the end the paths are kept apart by the digits that are known to be zero"""
        m = self.n - 12
        o = self.array(it.st, mark)
        d = self.delta(it.st, it.st.heap[o]) if o is not None else None
        if max((c[1] for c in it.iters.values()), default=0) < m:
            return (d,)
        return (d,) if o is None else (d,) + tuple(simp1(it.st, x.p).const() == 0 for x in it.st.heap[o][m:])

    def join(self, mg, vs):
        sts = mg.sts
        ds = [self.delta(s, v) for s, v in zip(sts, vs)]
        out = []
        for j in range(self.n):
            seen = {}
            for s, v in zip(sts, vs):
                seen.setdefault(id(v[j]), (s, v[j]))
            x0 = vs[0][j]
            if len(seen) == 1 and len(x0.p.d) <= 2 and all(len(k) <= 1 and K.atoms[k[0]].kind == 'v' for k in x0.p.d if k):
                out.append(x0)
                continue
            ps = {}
            lo = hi = None
            for s, v in zip(sts, vs):
                x = v[j]
                if id(x) in ps:
                    continue
                p = simp1(s, x.p)
                if p is x.p and p.const() is not None:
                    ps[id(x)] = p
                else:
                    ps[id(x), id(s)] = p
                l, h = s.b.ival(p) if len(p.d) > 1 or p.const() is None else (p.const(), p.const())
                l, h = int(max(l, x.lo)), int(min(h, x.hi))
                lo = l if lo is None else min(lo, l)
                hi = h if hi is None else max(hi, h)
            q = list(ps.values())
            if lo == hi:
                out.append(IV(pc(lo), lo, hi))
                continue
            if all(is_odd(p) for p in q):
                k = K.fresh('half', (lo - 1) // 2, (hi - 1) // 2)
                out.append(IV(Poly({(k.id,): 2, (): 1}), lo, hi))
                continue
            a = K.fresh('dig', lo, hi)
            if all(zero_or_odd(p) for p in q):
                a.odd = K.fresh('half', (lo - 1) // 2, (hi - 1) // 2)
            out.append(IV(pa(a), lo, hi))
        r = Ar(out)
        mg.st.ghost['tmpl'] = (r, ds[0])
        return r


def simp1(st, p):
    """st.simp with a short cut for sums of plain variables the state does not replace"""
    env = st.env
    d = p.d
    if len(d) == 1:
        (k, c), = d.items()
        if len(k) == 1 and k[0] in env:
            q = env[k[0]]
            return q if c == 1 else pscale(q, c)
    for k in d:
        if len(k) > 1 or k and (k[0] in env or K.atoms[k[0]].kind != 'v'):
            return st.simp(p)
    return p


def is_odd(p):
    return all((c % 2 == 0) if k else (c % 2 == 1) for k, c in p.d.items()) and () in p.d


def zero_or_odd(p):
    c = p.const()
    if c is not None:
        return c == 0 or c % 2 == 1
    if is_odd(p):
        return True
    if len(p.d) == 1:
        (k, c), = p.d.items()
        return c in (1, -1) and len(k) == 1 and \
            (K.atoms[k[0]].odd is not None or (K.atoms[k[0]].lo, K.atoms[k[0]].hi) == (0, 1))
    return False


def merge_items(ex, f, items, mark):
    if not (ex.merging or len(items) > 24):
        return items
    t = ex.template
    if t is not None:
        t.memo.clear()
        items = [i for i in items if t.keep(i.st, mark)]
        if len(items) < 2:
            return items
    blk = items[0].blk
    live = sorted(f['_live'][blk])
    if not ex.merging and t is None:
        # paths that differ in one decision
        items = join_pairs(ex, items, mark, live)
        if len(items) <= 24:
            return items
        # paths that differ in what they assumed only
        items = join_groups(ex, items, mark, live, exact=True)
        if len(items) <= 48:
            return items
    return join_groups(ex, items, mark, live)


def indicator(b, f):
    """polynomial that is 1 when f holds and 0 otherwise, or None"""
    if f[0] == 'le':
        q = f[1]
        lo, hi = b.ival(q)
        if lo == NEG or hi == POS:
            return None
        M = 1
        while M < 1 - lo or M < hi:
            M *= 2
        return kn.fdiv(psub(pc(M), q), M, b)
    g = f[1] if f[0] == 'not' else f
    if g[0] == 'eq':
        lo, hi = b.ival(g[1])
        if (lo, hi) == (0, 1):
            return psub(pc(1), g[1]) if f[0] == 'eq' else g[1]
        if (lo, hi) == (-1, 0):
            return padd(pc(1), g[1]) if f[0] == 'eq' else pscale(g[1], -1)
    return None


def join_pairs(ex, items, mark, live):
    """two paths that differ in their last decision only become one: a value that is p on one and q
    on the other is p + I*(q - p) with the indicator I of the decision"""
    while True:
        best = {}
        pair = None
        for it in sorted(items, key=lambda i: -len(i.st.facts)):
            fs = it.st.facts
            if it.defers or it.st.panicking is not None or not fs:
                continue
            k = (it.idx, it.st.log, tuple(map(id, fs[:-1])))
            for o in best.get(k, ()):
                if fkey(fnot(o.st.facts[-1])) == fkey(fs[-1]) and \
                        Grouper(ex, it, mark, live).k == Grouper(ex, o, mark, live).k:
                    try:
                        pair = (o, it, PairMerger(ex, [o, it], mark, live, fs[-1]).run())
                    except NoMerge as e:
                        ex.mergewhy = str(e)
                        continue
                    break
            if pair:
                break
            best.setdefault(k, []).append(it)
        if not pair:
            return items
        items = [i for i in items if i is not pair[0] and i is not pair[1]] + [pair[2]]


def join_groups(ex, items, mark, live, exact=False):
    t = ex.template
    groups = {}
    sums = set()
    for it in items:
        if it.defers or it.st.panicking is not None:
            groups[id(it)] = [it]
            continue
        k = (it.idx, it.st.log, Grouper(ex, it, mark, live, exact).k)
        if t is not None:
            pt = t.pattern(it, mark)
            sums.add(pt[0])
            if len(sums) > 20:
                raise Invariant('the sum of the digits differs from the scalar', it.st.trace)
            k += pt
        groups.setdefault(k, []).append(it)
    out = []
    for g in groups.values():
        if len(g) == 1:
            out += g
            continue
        try:
            out.append(Merger(ex, g, mark, live).run())
        except NoMerge as e:
            ex.mergefail = getattr(ex, 'mergefail', 0) + 1
            ex.mergewhy = str(e)
            out += g
    return out


class Merger:
    def __init__(self, ex, items, mark, live):
        self.ex, self.items, self.mark, self.live = ex, items, mark, live
        self.sts = [i.st for i in items]
        self.memo = {}
        self.heap = {}
        self.pairs = None
        self.alts = None        # what each path assumed beyond the common facts

    def run(self):
        sts = self.sts
        s0 = sts[0]
        # common equations
        env = {i: q for i, q in s0.env.items() if all(same_q(s.env.get(i), q) for s in sts[1:])}
        self.extra = [{i: q for i, q in s.env.items() if i not in env} for s in sts]
        st = State(s0.base)
        st.env = env
        st.log = s0.log
        st.ghost = {k: v for k, v in s0.ghost.items() if k != 'tmpl' and all(s.ghost.get(k) == v for s in sts[1:])}
        # common facts
        common = list(s0.facts)
        for s in sts[1:]:
            ids = {id(x) for x in s.facts}
            keys = None
            keep = []
            for x in common:
                if id(x) in ids:
                    keep.append(x)
                    continue
                if keys is None:
                    keys = {fkey(y) for y in s.facts}
                if fkey(x) in keys:
                    keep.append(x)
            common = keep
        st.facts = tuple(common)
        n = 0
        for a, b in zip(s0.trace, sts[1].trace):
            if a is not b:
                break
            n += 1
        st.trace = s0.trace[:n]
        # bounds
        b = Bounds()
        for i, (lo, hi) in s0.b.atom.items():
            for s in sts[1:]:
                o = s.b.atom.get(i)
                if o is None:
                    break
                lo, hi = min(lo, o[0]), max(hi, o[1])
            else:
                b.atom[i] = (lo, hi)
        for k, (lo, hi) in s0.b.rec.items():
            for s in sts[1:]:
                o = s.b.rec.get(k)
                if o is None:
                    break
                lo, hi = min(lo, o[0]), max(hi, o[1])
            else:
                b.rec[k] = (lo, hi)
        for name in ('dis', 'pair'):
            d0 = getattr(s0.b, name)
            d = getattr(b, name)
            for k, v in d0.items():
                if all(getattr(s.b, name).get(k) == v for s in sts[1:]):
                    d[k] = v
        st.b = b
        if self.ex.template is not None:
            # keep what was known on entry; the rest is in the invariant
            t = self.ex.template
            st.facts, st.env, st.b = t.facts, dict(t.env), t.b.copy()
        elif not self.ex.merging and self.pairs is None:
            ids = {fkey(x) for x in common}
            self.alts = [[(fkey(x), x) for x in s.facts if fkey(x) not in ids] for s in sts]
        self.st = st
        if self.pairs is not None:
            self.ind = indicator(b, self.pairs)
            if self.ind is None:
                raise NoMerge('decision')
        # memory that existed before the function was entered
        keys = set()
        for s in sts:
            keys.update(o for o in s.heap if o < self.mark)
        for o in keys:
            vs = [s.get(o) for s in sts]
            st.heap[o] = vs[0] if all(v is vs[0] for v in vs[1:]) else self.val(vs)
        it0 = self.items[0]
        env2 = {}
        for n in self.live:
            if n in it0.env:
                env2[n] = self.val([i.env[n] for i in self.items])
        # free variables and parameters are registers as well
        for n, v in it0.env.items():
            if n.startswith('$'):
                env2[n] = v
        if self.alts is not None:
            alternatives(st, self.alts)
        import exec as ex_
        r = ex_.Item(st, env2, it0.blk, it0.idx, None, it0.iters, ())
        return r

    # ---- values
    def val(self, vs):
        v0 = vs[0]
        if all(v is v0 for v in vs[1:]) and not isinstance(v0, (Ptr, Slice, St, Ar, Iface, Fn)):
            return v0
        if any(type(v) is not type(v0) for v in vs[1:]):
            raise NoMerge('types')
        if isinstance(v0, IV):
            return self.int(vs)
        if v0 is NIL:
            return v0
        if isinstance(v0, Ptr):
            return self.ptr(vs)
        if isinstance(v0, Slice):
            if v0.isnil():
                return v0
            o = self.obj([v.obj for v in vs])
            return Slice(o, v0.path, v0.off, v0.len, v0.cap)
        if is_fe(v0):
            return self.fe(vs)
        if self.ex.template is not None and all(self.ex.template.is_array(v) for v in vs):
            return self.ex.template.join(self, vs)
        if isinstance(v0, (St, Ar)):
            if any(len(v) != len(v0) for v in vs):
                raise NoMerge('length')
            return type(v0)([self.val(list(x)) for x in zip(*vs)])
        if isinstance(v0, BI):
            return BI(self.val([v.v for v in vs]))
        if isinstance(v0, tuple):
            k = fkey(v0)
            if any(fkey(v) != k for v in vs):
                c = [s.fsimplify(v) for s, v in zip(self.sts, vs)]
                if c[0][0] == 'c' and all(x == c[0] for x in c):
                    return c[0]
                raise NoMerge('formula')
            return v0
        if isinstance(v0, Iface):
            if any(v.t != v0.t for v in vs):
                raise NoMerge('iface')
            return Iface(v0.t, self.val([v.v for v in vs]))
        if isinstance(v0, Fn):
            if any(v.name != v0.name for v in vs):
                raise NoMerge('function')
            f = Fn(v0.name, [self.val(list(x)) for x in zip(*[v.bind for v in vs])])
            return f
        if isinstance(v0, Rope):
            k = pieces_key0(vs[0])
            if all(pieces_key0(v) == k for v in vs):
                return v0
            raise NoMerge('rope')
        if isinstance(v0, Str):
            if all(str_key(v) == str_key(v0) for v in vs):
                return v0
            raise NoMerge('string')
        if isinstance(v0, Opaque):
            if all(v.name == v0.name and v.data == v0.data for v in vs):
                return v0
        raise NoMerge('value %r' % (v0,))

    def obj(self, os):
        if all(o == os[0] for o in os):
            o = os[0]
            if o < self.mark:
                return o
            vs = [s.get(o) for s in self.sts]
        else:
            if any(o < self.mark for o in os):
                raise NoMerge('different old objects')
            vs = [s.get(o) for s, o in zip(self.sts, os)]
        key = tuple(os)
        r = self.memo.get(key)
        if r is not None:
            return r
        from exec import new_obj
        same = all(o == os[0] for o in os)
        r = self.memo[key] = os[0] if same else new_obj()
        self.st.heap[r] = vs[0]
        self.st.heap[r] = self.val(vs)
        return r

    def ptr(self, vs):
        v0 = vs[0]
        if any(v.path != v0.path for v in vs):
            raise NoMerge('path')
        if not v0.path and all(v.obj >= self.mark for v in vs):
            c = [ge_kind(self.ex, s, s.get(v.obj)) for s, v in zip(self.sts, vs)]
            if c[0] in (1, 2) and all(x == c[0] for x in c) and \
                    not all(v.obj == v0.obj and s.get(v.obj) is self.sts[0].get(v0.obj)
                            for s, v in zip(self.sts, vs)):
                return self.ge(vs, c[0])
        return Ptr(self.obj([v.obj for v in vs]), v0.path)

    def ge(self, vs, c):
        key = ('ge',) + tuple(v.obj for v in vs)
        r = self.memo.get(key)
        if r is not None:
            return r
        from spec import ge_read, ge_point, ge_make, ge_bounds, NoMatch
        from points import Pt
        cx = self.ex.cx
        pts = []
        tabs = []
        for s, v in zip(self.sts, vs):
            try:
                c_, fs, fes, g = ge_read(cx, s, v)
            except NoMatch:
                raise NoMerge('element')
            for f, b in zip(fes, ge_bounds(c)):
                if not cx.fe_within(s, f, b):
                    raise NoMerge('limb bounds')
            p = ge_point(cx, s, c, fs)
            if p is None:
                raise NoMerge('unknown point')
            pts.append(p.simp(s))
            tabs.append((g[cx.ge['precomputedForSingle']], g[cx.ge['precomputedForDouble']]))
        syms = sorted(set(k for p in pts for k in p.d))
        d = {}
        for k in syms:
            cs = [p.d.get(k, kn.ZERO) for p in pts]
            e = self.expr(cs)
            if e is None:
                raise NoMerge('no common multiple of %s' % k)
            d[k] = e
        p = Pt(d)
        for s, q in zip(self.sts, pts):
            if p.simp(s) != q:
                raise NoMerge('point')
        t1 = self.val([t[0] for t in tabs])
        t2 = self.val([t[1] for t in tabs])
        r = self.memo[key] = ge_make(cx, self.st, c, p, single=t1, double=t2)
        return r

    def fe(self, vs):
        cx = self.ex.cx
        if all(v is vs[0] for v in vs):
            return vs[0]
        fs = [cx.fe_fp(s, v) for s, v in zip(self.sts, vs)]
        if any(kn.fnorm(f - fs[0]).d for f in fs[1:]):
            raise NoMerge('field element')
        bd = [max(max(-s.b.ival(s.simp(v[0][i].p))[0], s.b.ival(s.simp(v[0][i].p))[1])
                  for s, v in zip(self.sts, vs)) for i in range(10)]
        return cx.fe_make(self.st, fs[0], bd)

    def int(self, vs):
        v0 = vs[0]
        if all(v.p == v0.p for v in vs[1:]):
            return IV(v0.p, min(v.lo for v in vs), max(v.hi for v in vs))
        ps = [s.simp(v.p) for s, v in zip(self.sts, vs)]
        lo = hi = None
        for s, p, v in zip(self.sts, ps, vs):
            l, h = s.b.ival(p)
            l, h = max(l, v.lo), min(h, v.hi)
            lo = l if lo is None else min(lo, l)
            hi = h if hi is None else max(hi, h)
        e = self.expr(ps)
        if e is None:
            e = pa(K.fresh('mg', lo, hi))
            for alt, p in zip(self.alts or (), ps):
                q = eq0(psub(e, p))
                alt.append((fkey(q), q))
        return IV(e, lo, hi)

    def expr(self, ps):
        """a polynomial that has the value ps[i] on path i, or None"""
        cands = []
        for p, ext in zip(ps, self.extra):
            c = unsub(p, ext)
            if c not in cands:
                cands.append(c)
            if p not in cands:
                cands.append(p)
        for c in cands:
            if all(s.simp(c) == p for s, p in zip(self.sts, ps)):
                return c
        # interpolate over an atom that is fixed to different constants
        vals = {}
        for p, ext in zip(ps, self.extra):
            for i, q in ext.items():
                cc = q.const() if isinstance(q, Poly) else None
                if cc is not None:
                    vals.setdefault(i, {}).setdefault(cc, []).append(p)
        for i, m in vals.items():
            if len(m) != 2 or sum(len(x) for x in m.values()) != len(ps):
                continue
            (c1, l1), (c2, l2) = sorted(m.items())
            for a in l1[:4]:
                for b in l2[:4]:
                    d = psub(b, a)
                    if any(x % (c2 - c1) for x in d.d.values()):
                        continue
                    m1 = Poly({k: x // (c2 - c1) for k, x in d.d.items()})
                    e = padd(a, pmul(m1, Poly({(i,): 1, (): -c1}) if c1 else Poly({(i,): 1})))
                    if all(s.simp(e) == p for s, p in zip(self.sts, ps)):
                        return e
        return None


class PairMerger(Merger):
    """two paths; the second is the one on which f holds"""
    def __init__(self, ex, items, mark, live, f):
        Merger.__init__(self, ex, items, mark, live)
        self.pairs = f

    def int(self, vs):
        p, q = vs[0].p, vs[1].p
        if p == q:
            return IV(p, min(v.lo for v in vs), max(v.hi for v in vs))
        ls = []
        for s, v in zip(self.sts, vs):
            l, h = s.b.ival(s.simp(v.p))
            ls.append((max(l, v.lo), min(h, v.hi)))
        lo, hi = min(l for l, h in ls), max(h for l, h in ls)
        e = padd(p, pmul(self.ind, psub(q, p)))
        self.st.b.record(e, lo, hi)
        return IV(e, lo, hi)


def alternatives(st, alts):
    """one of the conjunctions holds"""
    alts = [dict(a) for a in alts]
    # a path that was split and meets itself again
    again = True
    while again:
        again = False
        for i in range(len(alts)):
            for j in range(i):
                a, b = alts[i], alts[j]
                if set(b) <= set(a):
                    del alts[i]
                    again = True
                    break
                if set(a) <= set(b):
                    del alts[j]
                    again = True
                    break
                if len(a) == len(b):
                    x = [k for k in a if k not in b]
                    y = [k for k in b if k not in a]
                    if len(x) == 1 and len(y) == 1 and fkey(fnot(a[x[0]])) == y[0]:
                        del a[x[0]]
                        del alts[j]
                        again = True
                        break
            if again:
                break
    if len(alts) == 1:
        for f in alts[0].values():
            st.assume(f)
        return
    if any(not a for a in alts) or len(alts) > 64 or sum(map(len, alts)) > 600:
        return
    r = FALSE
    for a in alts:
        c = TRUE
        for f in a.values():
            c = fand(c, f)
        r = for_(r, c)
    st.facts = st.facts + (r,)


def same_q(a, b):
    if a is b:
        return True
    return a is not None and type(a) is type(b) and a == b


def pieces_key0(r):
    from exec import pieces_key
    return pieces_key(State({}), r.ps)


def unsub(p, ext):
    """rewrite p with the atoms that the path equations eliminated: p mentions k, the path knows
    i = c*k + rest; linear occurrences of k are expressed through i"""
    for i, q in ext.items():
        if not isinstance(q, Poly):
            continue
        for k, c in q.d.items():
            if len(k) != 1 or k not in p.d or k == (i,):
                continue
            al = p.d[k]
            if al % c:
                continue
            m = al // c
            # p - m*q + m*i
            n = padd(psub(p, pscale(q, m)), Poly({(i,): m}))
            if k in n.d:
                continue
            p = n
            break
    return p
