"""One entry per property: the case function, how many cases per tier, and what has to be observed for a verdict"""
REGISTRY = {}


def register(prop, case, rule, quick, thorough, nontrivial, least=None, **kw):
    REGISTRY[prop] = dict(case=case, rule=rule, quick=quick, thorough=thorough, nontrivial=nontrivial,
                          least=least or {'monitor_evaluations': 50}, **kw)


from bgmon.checks import points, gridding, storage, views, exports, inputs, parallel, cube, plots, compat, faults  # noqa
