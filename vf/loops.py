"""Loop rule with a found invariant.

A loop whose number of iterations is not bounded by anything concrete is not unrolled.  The first iteration
is run once; what it changed (loop variables, memory) is generalised to a value after k iterations:

    v0 -> v0 + s        becomes   v0 + s*k
    total length        becomes   catlen(k), the length of the first k elements of a list of byte strings
    sum + byte 0        becomes   sum + le(k), the little endian value of the first k bytes,
                                  le(0) = 0, le(k+1) = le(k) + 2^(8k) * byte k
    digest of a prefix  becomes   digest of the pieces followed by the first k elements

The loop condition gives the number N of iterations.  Then three things are shown: the generalised state at
k = 0 is the state on entry and N >= 0; one iteration from the generalised state with k < N arrives at the
header in the generalised state for k+1 and changes nothing else; from the generalised state with k = N the
loop is left.  The outcomes are those of the last two.  If any of this fails the rule does not apply and the
loop is executed as before."""
import heapq
import itertools
import kernel as kn
from kernel import K, pc, pa, padd, psub, pscale, pmul, Poly
from state import *
from kernel import fdiv


def bind(ex):
    global Item, rope_norm, pieces_key, catlen, seq_byte, same_value, obj_mark, GoPanic, NeedFork, NeedEnum
    import exec as e
    import spec
    Item, rope_norm, pieces_key, catlen, seq_byte = e.Item, e.rope_norm, e.pieces_key, e.catlen, e.seq_byte
    GoPanic, NeedFork, NeedEnum = e.GoPanic, e.NeedFork, e.NeedEnum
    same_value, obj_mark = spec.same_value, e.obj_mark


def le_prefix(st, key, k):
    """little endian value of the first k bytes of the sequence key"""
    if k.const() == 0:
        return kn.ZERO
    return pa(K.func('le', pieces_key(st, (('s', key, kn.ZERO, k),)), 0, None))


def pow2(p):
    c = p.const()
    return pc(1 << c) if c is not None else pa(K.func('pow2', p.key(), 1, None))


def gen_poly(st, p0, p1):
    d = psub(p1, p0)
    c = d.const()
    if c is not None:
        return lambda k, nxt=False: padd(p0, pscale(padd(k, pc(1)) if nxt else k, c))
    if len(d.d) != 1:
        return None
    (m, c), = d.d.items()
    a = K.atoms[m[0]] if len(m) == 1 else None
    if a is None or a.kind != 'u':
        return None
    if a.data[1] == 'catlen' and a.arg[1].const() == 1:
        return lambda k, nxt=False: padd(p0, pscale(catlen(a.arg[0], padd(k, pc(1)) if nxt else k), c))
    if a.data[1] == 'byte' and a.arg[1].const() == 0 and c == 1:
        key = a.arg[0]

        def go(k, nxt=False):
            r = padd(p0, le_prefix(st, key, k))
            if nxt:
                r = padd(r, pmul(pow2(pscale(k, 8)), seq_byte(key, k).p))
            return r
        return go
    return None


def gen(st, v0, v1):
    """function k, next -> value, or None"""
    if v0 is v1:
        return lambda k, nxt=False: v0
    if type(v0) is not type(v1):
        return None
    if isinstance(v0, IV):
        g = gen_poly(st, st.simp(v0.p), st.simp(v1.p))
        return g and (lambda k, nxt=False: mkiv(st, g(k, nxt)))
    if isinstance(v0, BI):
        if v0.shared or v1.shared or v1.f is not None:
            return None
        g = gen_poly(st, st.simp(v0.v.p), st.simp(v1.v.p))
        return g and (lambda k, nxt=False: BI(mkiv(st, g(k, nxt))))
    if isinstance(v0, Opaque) and v0.name == v1.name == 'hash' and v0.data[0] == v1.data[0]:
        name, ps0 = v0.data
        a, b = list(rope_norm(ps0).ps), list(rope_norm(v1.data[1]).ps)
        if len(b) != len(a) + 1 or b[-1][0] != 's' or pieces_key(st, a) != pieces_key(st, b[:-1]):
            return None
        _, key, off, ln = b[-1]
        g = gen_poly(st, kn.ZERO, st.simp(ln))
        return g and (lambda k, nxt=False: Opaque('hash', (name, rope_norm(tuple(a) + (('s', key, off, g(k, nxt)),)).ps)))
    if same_value(st, v0, v1):
        return lambda k, nxt=False: v0
    if isinstance(v0, Slice) and (v0.obj, v0.path) == (v1.obj, v1.path) and v0.obj is not None:
        gs = [gen_poly(st, st.simp(p), st.simp(q)) for p, q in ((v0.off, v1.off), (v0.len.p, v1.len.p), (v0.cap.p, v1.cap.p))]
        if None not in gs:
            return lambda k, nxt=False: Slice(v0.obj, v0.path, gs[0](k, nxt), mkiv(st, gs[1](k, nxt)),
                                              mkiv(st, gs[2](k, nxt)))
    return None


def mkiv(st, p):
    c = p.const()
    if c is not None:
        return IV(p, c, c)
    lo, hi = st.b.ival(p)
    return IV(p, lo, hi)


def equal(st, u, v):
    if u is v:
        return True
    if type(u) is not type(v):
        return False
    if isinstance(u, BI):
        return not (u.shared or v.shared) and equal(st, u.v, v.v)
    if isinstance(u, IV):
        return st.decide(eq0(psub(st.simp(u.p), st.simp(v.p)))) is True
    if isinstance(u, Slice) and not u.isnil() and not v.isnil():
        return (u.obj, u.path) == (v.obj, v.path) and \
            all(st.decide(eq0(psub(st.simp(p), st.simp(q)))) is True
                for p, q in ((u.off, v.off), (u.len.p, v.len.p), (u.cap.p, v.cap.p)))
    if isinstance(u, Opaque) and u.name == v.name == 'hash':
        if u.data[0] != v.data[0]:
            return False
        return pieces_key(st, u.data[1]) == pieces_key(st, v.data[1]) or same_pieces(st, u.data[1], v.data[1])
    return same_value(st, u, v)


def same_pieces(st, ps, qs):
    ps, qs = rope_norm(ps).ps, rope_norm(qs).ps
    if len(ps) != len(qs):
        return False
    for p, q in zip(ps, qs):
        if p[0] == q[0] == 's' and p[1] == q[1]:
            for x, y in ((p[2], q[2]), (p[3], q[3])):
                if st.decide(eq0(psub(st.simp(x), st.simp(y))), 2) is not True:
                    return False
        elif pieces_key(st, (p,)) != pieces_key(st, (q,)):
            return False
    return True


def body_run(ex, f, item, h):
    """(items that come back to the header, outcomes)"""
    backs, outs, items, cnt = [], [], [], itertools.count()
    body = f['_loops'][h]

    def push(it):
        if it.blk == h and it.idx == 0 and it.prev is not None and it.prev in body:
            backs.append(it)
            if len(backs) > 8:
                raise Unsupported('too many paths through the loop')
        else:
            heapq.heappush(items, (ex.key(f, it), next(cnt), it))
    push(item)
    while items:
        _, _, it = heapq.heappop(items)
        if entering(f, it) and it.blk != h and attempt(ex, f, it, push, outs):
            continue
        ex.exec_item(f, it, push, outs)
    return backs, outs


def entering(f, it):
    return it.idx == 0 and it.prev is not None and it.blk in f['_loops'] and it.prev not in f['_loops'][it.blk]


def changed(ex, st0, st, mark):
    """objects of st0 whose content differs in st"""
    r = {}
    for o, v in st.heap.items():
        if o >= mark:
            continue
        old = st0.heap.get(o)
        if old is None:
            old = st0.base.get(o)
        if old is not v:
            if old is None:
                return None
            r[o] = (old, v)
    return r


class NoInvariant(Unsupported):
    """a loop of unknown length whose invariant was not found: unrolling it leads nowhere"""


def undecided(ex, f, it):
    """the path does not know whether the loop is entered"""
    ins = f['blocks'][it.blk]['instrs']
    if ins[-1]['op'] != 'If':
        return False
    p = Item(it.st.copy(), dict(it.env), it.blk, 0, it.prev, dict(it.iters), it.defers)
    ex.do_phis(f, p)
    try:
        for x in ins[p.idx:-1]:
            if x['op'] in ('Call', 'Defer', 'RunDefers', 'Store'):
                return True
            ex.simple(p, p.st, x)
        return p.st.decide(ex.val(p, ins[-1]['x'])) is None
    except (Unsupported, GoPanic):
        return False
    except (NeedFork, NeedEnum):
        return True


def attempt(ex, f, it, push, outs):
    bind(ex)
    if not undecided(ex, f, it):
        return False
    n0 = len(ex.stats.overflow)
    try:
        r = attempt1(ex, f, it)
    except NoInvariant:
        raise
    except (Unsupported, GoPanic, NeedFork, NeedEnum):
        r = None
    if r is None:
        del ex.stats.overflow[n0:]
        return False
    ex.stats.looprule = getattr(ex.stats, 'looprule', 0) + 1
    outs.extend(r)
    return True


def attempt1(ex, f, it):
    h = it.blk
    blk = f['blocks'][h]
    probe = Item(it.st.copy(), dict(it.env), h, 0, it.prev, dict(it.iters), it.defers)
    ex.do_phis(f, probe)
    start = probe.idx
    phis = [x for x in blk['instrs'][:start]]
    env0, st0 = dict(probe.env), probe.st.copy()
    mark = obj_mark()

    def item(st, env):
        return Item(st, env, h, start, None, dict(it.iters), it.defers)
    backs, _ = body_run(ex, f, probe, h)
    if not 0 < len(backs) < 5:
        return None
    why = None
    for b in backs:
        n0 = len(ex.stats.overflow)
        try:
            r = invariant(ex, f, it, h, b, phis, env0, st0, mark, item)
            if r is not None:
                return r
        except (Unsupported, GoPanic, NeedFork, NeedEnum) as e:
            why = e
        del ex.stats.overflow[n0:]
    if why is not None:
        raise why
    return None


def invariant(ex, f, it, h, b, phis, env0, st0, mark, item):
    """the invariant that the first iteration b suggests, and its proof"""
    blk = f['blocks'][h]
    if len(b.st.facts) == len(st0.facts) or b.st.log != st0.log or b.st.ghost != st0.ghost:
        return None

    def phival(b):
        j = blk['preds'].index(b.prev)
        return {x['n']: ex.val(b, x['edges'][j]) for x in phis}
    v1 = phival(b)
    genv = {n: gen(st0, env0[n], v) for n, v in v1.items()}
    ch = changed(ex, st0, b.st, mark)
    if ch is None:
        return None
    gheap = {o: gen(st0, u, v) for o, (u, v) in ch.items()}
    if any(g is None for g in genv.values()) or any(g is None for g in gheap.values()):
        return None
    # k = 0 is the state on entry
    for n, g in genv.items():
        if not equal(st0, g(pc(0)), env0[n]):
            return None
    for o, g in gheap.items():
        if not equal(st0, g(pc(0)), ch[o][0]):
            return None
    kat = K.fresh('k', 0, 1 << 40)
    k = pa(kat)

    def general(kp):
        st = st0.copy()
        for o, g in gheap.items():
            st.heap[o] = g(kp)
        env = dict(env0)
        for n, g in genv.items():
            env[n] = g(kp)
        return st, env
    # the number of iterations, from the condition under which the first path goes round
    backs, _ = body_run(ex, f, item(*general(k)), h)
    N = None
    for b in backs:
        for fa in b.st.facts[len(st0.facts):]:
            if fa[0] != 'le' or (kat.id,) not in fa[1].d:
                continue
            c = fa[1].d[(kat.id,)]
            r = psub(fa[1], pscale(k, c))
            if c <= 0 or any(kat.id in m for m in r.d):
                continue
            # c*k + r <= 0 iff k < N
            q = padd(fdiv(st0.simp(pscale(r, -1)), c, st0.b), pc(1))
            if st0.b.ival(q)[0] >= -(1 << 40) and st0.b.ival(q)[1] <= 1 << 40:
                N = q
                break
        if N is not None:
            break
    if N is None:
        return None
    def fail():
        if st0.b.ival(N)[1] > 2000:
            raise NoInvariant('no invariant found for the loop at block %d of %s' % (h, f['name']))
    st, env = general(k)
    if not st.assume(le0(padd(psub(k, N), pc(1)))):
        return fail()
    backs, o2 = body_run(ex, f, item(st, env), h)
    for b in backs:
        if b.st.log != st0.log or b.st.ghost != st0.ghost:
            return fail()
        v = phival(b)
        for n, g in genv.items():
            if not equal(b.st, v[n], g(k, True)):
                return fail()
        ch = changed(ex, st, b.st, mark)
        if ch is None or any(o not in gheap for o in ch):
            return fail()
        for o, g in gheap.items():
            if not equal(b.st, b.st.get(o), g(k, True)):
                return fail()
    o3 = []
    for kp, c in ((N, le0(pscale(N, -1))), (pc(0), le0(padd(N, pc(1))))):
        # the loop ends after N iterations, or before the first one
        d = st0.decide(c)
        if d is False:
            continue
        st, env = general(kp)
        if d is None and not st.assume(c):
            continue
        backs, o = body_run(ex, f, item(st, env), h)
        if backs:
            return fail()
        o3 += o
    return o2 + o3
