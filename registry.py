"""What is verified: proof tasks and the properties they belong to."""
from kvc.run import Task

TASKS = []
PROPS = {}
TRUSTED = [
    'kvc (kvc/*.py: LLVM IR symbolic executor, contract calculus, VC simplifier, quantifier instantiation)',
    'clang 18 front end (-O0 IR of the real source is the verified text)',
    'z3 4.8.12 and cvc5 1.1.2 (unsat answers)',
    'specs/*.h, specs/*.c (the contracts themselves)',
]
ASSUMPTIONS = {'*': [
    'termination is not proved (partial correctness); recursion is handled by contract',
    'the C abstract machine as fixed by clang -O0 for x86-64; machine integers are bit-vectors with wrap-around, signed overflow is not an obligation',
    'constant tables (modifiers, keycode_table) are taken from the source as compiled',
]}


def T(spec, fn, tags, enforce=None, replace=(), cost=5, jobs=1, proves=None, **kw):
    t = Task(spec, fn, enforce=enforce, replace=[x for x in replace.split(',') if x] if isinstance(replace, str) else replace, **kw)
    t.tags = set(tags.split())
    t.cost = cost
    t.proves = proves or enforce
    t.jobs = jobs
    t.owner = None
    TASKS.append(t)
    return t


def titles():
    import json
    import os
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')
    return {d['id']: d['title'] for d in map(json.loads, open(p))}


def P(pid, note, level='proof', **kw):
    """claim a property; note: what the check gives and what it assumes (level_note of the manifest)"""
    PROPS[pid] = dict(title=titles()[pid], note=note, level=level, **kw)


from reg import engine, units  # noqa: E402,F401
