"""Program loading, package initialisation and contract verification tasks."""
import json, os, sys, time
sys.setrecursionlimit(100000)
import kernel as kn
from state import *
from exec import *
import models
import spec
import contracts
import lemmas


def load(path, init=True):
    js = json.load(open(path))
    prog = Program(js)
    ex = Exec(prog)
    models.install(ex)
    ex.nomatch = []
    ex.use_contracts = False
    if init:
        for g in js['globals']:
            ex.gobj(g['n'], g['t'])
        st = State(prog.base)
        outs = ex.run(prog.pkg + '.init', [], st)
        if len(outs) != 1 or outs[0].kind != 'ret':
            raise Unsupported('package initialisation: %r' % ([(o.kind, o.val) for o in outs],))
        base = dict(prog.base)
        base.update(outs[0].st.heap)
        prog.base.clear()
        prog.base.update(base)
    ex.use_contracts = True
    ex.cx = spec.Ctx(ex)
    ex.table_hook = spec.table_hook(ex.cx)
    ex.contracts = contracts.build(ex.cx)
    ex.lemmas = lemmas.build(ex.cx)
    ex.stats.__init__()
    ex.inlined, ex.applied, ex.assumed = set(), set(), set()
    return ex
