"""property id -> contract modules and functions"""
def _l(mod, *attrs):
    def f():
        import importlib
        m = importlib.import_module('vp.contracts.' + mod); r = []
        for a in attrs: r += list(getattr(m, a))
        return r
    return f
def _cat(*fs): return lambda: [x for f in fs for x in f()]
PROPS = {
    'V01': dict(mods=['vector', 'compound'], functions=_cat(_l('vector', 'MAP'), _l('compound', 'MAP'))),
    'V02': dict(mods=['vector', 'compound'], functions=_cat(_l('vector', 'RED'), _l('compound', 'RED'))),
    'V03': dict(mods=['vector', 'compound', 'iterate'], functions=_cat(_l('vector', 'BND'), _l('compound', 'BND'), _l('iterate', 'INTERIOR'))),
    'V04': dict(mods=['iterate'], functions=_l('iterate', 'STEPS')),
    'V05': dict(mods=['residual'], functions=_l('residual', 'ALL')),
    'V06': dict(mods=['alg'], functions=_l('alg', 'TERM')),
    'V07': dict(mods=['alg'], functions=_l('alg', 'ACCEPT')),
    'V08': dict(mods=['alg'], functions=_l('alg', 'MU')),
    'V15': dict(mods=['dense'], functions=_l('dense', 'ALL')),
    'V11': dict(mods=['results'], functions=_cat(_l('transforms', 'REMOVE', 'RELAX'), _l('nlp', 'BOUNDS'), _l('results', 'SOL'))),
    'V10': dict(mods=['process'], functions=_l('process', 'ALL')),
    'V12': dict(mods=['results', 'process'], functions=_cat(_l('transforms', 'SCALE', 'COMP'), _l('scaling', 'ALL'), _l('evals', 'REPORT'), _l('results', 'GET'))),
    'V21': dict(mods=['results', 'process'], functions=_cat(_l('evals', 'EVAL', 'START'), _l('results', 'EV'))),
    'V19': dict(mods=['cinterface'], functions=_l('cinterface', 'ALL')),
    'V13': dict(mods=['kkt'], functions=_l('kkt', 'ALL')),
    'V14': dict(mods=['hessian'], functions=_l('hessian', 'ALL')),
    'V20': dict(mods=['pridec'], functions=_l('pridec', 'ALL')),
    'V09': dict(mods=['inertia'], functions=_l('inertia', 'ALL')),
}

import collections
NA = collections.defaultdict(lambda: 'not yet brought under contract in this version of the framework')
NA['V16'] = 'the scatter loops accumulate into cells selected by stored index arrays (several entries may hit one cell); the invariant is a sum over a filtered index set, which needs an inductive argument per routine that the loop rules of this framework (pointwise maps, reductions, stated scalar/array-equality invariants) do not provide'
NA['V18'] = 'option storage and parsing go through std::map, std::string, std::vector<...> and iostream templates whose bodies are outside the reach of the extraction (hundreds of libstdc++ functions with allocation, exceptions and pointer-linked trees); contracts for all of them would be trusted, so nothing about hiop itself would be decided'

