#!/usr/bin/env python3
"""debug aid: analyse one function and print its traces.  run.py FN [FN...]"""
import sys, time
sys.path.insert(0, '/verif')
from fx.engine import Engine
from fx.terms import show
E = Engine(__import__('os').environ.get('FX_FACTS','/verif/.cache/facts/fix_rs.json')); E.cutscc = True
def pev(e, ind):
    print(ind + '%s %s(%s) -> %s  [%s]%s' % (e.kind, e.name, ', '.join(show(a) for a in e.args), show(e.res) if e.res else '', e.sp, ' G%s' % (e.guards,) if e.guards else ''))
    if e.kind == 'loop':
        for t, (o, p, init) in e.x['lvs'].items():
            print(ind + '   lv %s init %s back %s' % (show(t), show(init), ' | '.join(show(v) for v, _ in E.recvals[t][1])[:600]))
        for tr in e.x['iters']:
            ptr(tr, ind + '    ', e.facts)
def ptr(tr, ind, base={}):
    print(ind + '== %s %s' % (tr.kind, show(tr.val) if tr.val and not isinstance(tr.val, int) else ''))
    for f, v in tr.facts.items():
        if f not in base: print(ind + '   if %s%s' % ('' if v else 'NOT ', show(f)))
    for e in tr.events: pev(e, ind + '  ')
if __name__ == '__main__':
    for a in sys.argv[1:]:
        b = E.find(a)
        if b is None:
            print('not found', a, [i for i in E.bodies if a in i][:20]); continue
        t = time.time()
        av, trs = E.run(b)
        print('#### %s: %d traces, %d steps, %.1fs' % (a, len(trs), E.steps, time.time() - t))
        for tr in trs: ptr(tr, '')
        print('unmodelled', E.unmodelled)
