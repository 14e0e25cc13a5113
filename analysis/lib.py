"""Model of the trajectory library (subpackages/mav_trajectory_generation): which classes, how functions are run."""
import loader
from loader import AnalysisError
from engine import Interp
from terms import *

NS = 'mav_trajectory_generation::'
THIS = L(('this',))
SUB = 'subpackages/mav_trajectory_generation'
_L = {}


def lib(ctx, want=None):
    k = tuple(want) if want else None
    if k not in _L:
        _L[k] = Lib(ctx, want)
    _L[k].ctx = ctx
    return _L[k]


SRC = SUB + '/src/'


class Lib:
    def __init__(self, ctx, want=None):
        self.ctx = ctx
        self.prog = loader.load(want)
        ctx.use(prog=self.prog)

    def cls(self, sn):
        n = NS + sn
        return self.prog.record(n)['name']

    def method(self, cls, sn, n=None):
        return self.prog.method(NS + cls, sn, n)

    def fn(self, sn):
        return self.prog.fn(NS + sn)

    def is_lib(self, f):
        return f['file'].startswith('subpackages') or not f['file'].startswith('/')

    def run(self, fn, tagger=None, inline=None, args=None, kinds=None, cap=None, init=None, probe=None, opaque=(), this=None, throwing=None, disj=False, rounds=None, exc_types=None, yaml=None):
        """opaque: names (last component) of functions that stay calls"""
        evs = []

        def obs(ev, st):
            if probe is not None:
                ev.p = probe(I, ev, st)
            evs.append((ev, st.tags, st))
        op_ = set(opaque)

        def inl(f):
            if not self.is_lib(f):
                return False
            q = f['name'].replace(NS, '')
            if q in op_ or f['sn'] in op_ or '::'.join(q.split('::')[-2:]) in op_:
                return False
            return inline is None or inline(f)
        I = Interp(self.prog, inline=inl, observer=obs, tagger=tagger, kinds=kinds, cap=cap or (48 if self.ctx.thorough else 24), throwing=throwing)
        I.disj = disj
        I.rounds = rounds
        I.exc_types = exc_types
        I.yaml = yaml
        ends, thrown = I.run(fn, args=args, init=init, this=this)
        self.ctx.use(I)
        return evs, ends, thrown, I
