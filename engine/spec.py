"""Registry of contracts; imported both by the prover and by the concrete replayer."""
REG = []


class Stub:
    """stand-in object of a contract; asking it for something it lacks is the contract's limit, not a defect"""


class C:
    def __init__(self, fn, prop, name, functions, mode, weight, trials, needs, sufficient=False):
        self.sufficient = sufficient
        self.fn, self.prop, self.name, self.functions = fn, prop, name, functions
        self.mode, self.weight, self.trials, self.needs = mode, weight, trials, needs


def contract(prop, functions, mode='both', weight=1, trials=None, needs=None, sufficient=False):
    """mode: both (proved, with the concrete runs as replayer), bounded (concrete only, stated bound)
    sufficient: the proved conditions imply the property without being implied by it: a failed proof
    is a violation only when a run of the real code breaks the property itself"""
    def d(fn):
        REG.append(C(fn, prop, fn.__name__, functions, mode, weight, trials, needs, sufficient))
        return fn
    return d


def of(prop):
    return [c for c in REG if c.prop == prop]


def load(prop):
    import importlib, os, sys
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if root not in sys.path: sys.path.insert(0, root)
    importlib.import_module('contracts.' + prop.lower())
    return of(prop)


TRUSTED = [
    'z3 (SMT) and the polynomial normaliser engine/ratnf.py as back ends',
    'engine/sx.py, engine/st.py, engine/loops.py: symbolic semantics of Python scalars, torch/numpy element-wise, slicing and reduction operations, and the inductive loop rule',
    'engine/load.py: mechanical transform of the repository source on every run (literals to exact rationals, / and ** routed to the prover, loops cut at an inductive invariant; nothing else is dropped)',
    'engine/fakes.py: contracts assumed for torch, numpy, math, scipy and plotting libraries (external code)',
]
ASSUMPTIONS = [
    'floating-point arithmetic is treated as real arithmetic (float32/float64 rounding, overflow and NaN are outside the proofs; bounded runs use float64)',
    'denominators that the source does not guard are assumed non-zero on the path considered',
    'pow, exp, log, sqrt are known only through their monotonicity, sign and algebraic axioms',
    'torch/numpy primitives behave as documented; tensors do not alias except through the views the transform tracks',
]


def extra(prop):
    import sys
    m = sys.modules.get('contracts.' + prop.lower())
    return list(getattr(m, 'ASSUME', []))
