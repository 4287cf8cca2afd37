"""Runs a scenario of the Python binding and reports it as a job result."""
import os, sys

FUNCS = [0]


def go(make, repo, r, seconds):
    """explore make(repo) and fill the job result r"""
    here = os.path.dirname(os.path.abspath(__file__))
    if here not in sys.path:
        sys.path.insert(0, here)
    sys.unraisablehook = lambda a: None
    import sym, fake, abi
    import scenarios as S
    sig, lay = abi.load(repo)
    for k in fake.SIGNATURES:
        if k in sig:
            fake.SIGNATURES[k] = sig[k]
        elif k.startswith('resdet'):
            r['notes'].append('%s is not declared any more' % k)
    if lay != abi.LAYOUT:
        r['status'] = 'undecided'
        r['notes'].append('the layout of the public structures changed: %r' % lay)
        return r
    run = getattr(S, make[0])(repo, *make[1:])
    seen, checked, count = set(), set(), [0]
    root = os.path.join(repo, 'bindings', 'python')

    def prof(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(root):
            seen.add('bindings/python/%s:%s' % (os.path.basename(f), frame.f_code.co_qualname))
    S_fail, S_req = sym.Ctx.fail, sym.Ctx.require
    import re

    def require(self, cond, msg):
        count[0] += 1
        checked.add(msg)
        return S_req(self, cond, msg)
    sym.Ctx.require = require

    n = [0]

    def once(c):
        n[0] += 1
        if n[0] <= 40:
            sys.setprofile(prof)
        try:
            run(c)
        finally:
            sys.setprofile(None)
    viol, paths, q, st, unsup = sym.explore(once, seconds=seconds)
    sym.Ctx.require = S_req
    r.update(paths=paths, queries=q, solver_s=st, obligations=count[0], functions=sorted(seen), assertions=sorted(checked), witnesses=0)
    r['discharged'] = count[0]
    for msg, values in viol:
        got = sym.replay(run, values)
        e = {'kind': 'assert', 'description': msg, 'where': 'bindings/python', 'native': 'replayed on concrete values: %s' % got, 'values': values, 'scenario': list(make)}
        if got:
            r['violations'].append(e)
        else:
            r['unconfirmed'].append(e)
    r['discharged'] -= len(viol)
    if r['violations']:
        r['status'] = 'violation'
    elif r['unconfirmed']:
        r['status'] = 'inconclusive'
        r['notes'].append('counterexample does not reproduce: ' + r['unconfirmed'][0]['description'])
    elif unsup:
        r['status'] = 'undecided'
        r['notes'] += unsup
    elif not count[0] and make[0] not in ('unknown_key',):
        r['status'] = 'inconclusive'
        r['notes'].append('vacuous: no obligation was met')
    return r


def replay(make, repo, values):
    here = os.path.dirname(os.path.abspath(__file__))
    if here not in sys.path:
        sys.path.insert(0, here)
    sys.unraisablehook = lambda a: None
    import sym
    import scenarios as S
    return sym.replay(getattr(S, make[0])(repo, *make[1:]), values)
