#!/usr/bin/env python3
"""debug aid: list the panic events reachable from functions"""
import sys, os, time
sys.path.insert(0, '/verif')
from fx.engine import Engine
from fx.terms import show
from rules.base import uniq_events
E = Engine(os.environ.get('FX_FACTS','/verif/.cache/facts/fix_rs.json')); E.cutscc = True
E.opaque |= {'data_dictionary::DataDictionary::from_xml', '<data_dictionary::DataDictionary as std::str::FromStr>::from_str'}
for a in sys.argv[1:]:
    b = E.find(a); t=time.time()
    av, trs = E.run(b)
    print('###', a, len(trs), [t.kind for t in trs].count('panic'), 'tasks', [x[0] for x in E.tasks], '%.1fs' % (time.time()-t))
    for e, tr in uniq_events(trs):
        if e.kind == 'panic': print('   ', e.name, [show(x)[:100] for x in e.args], e.sp, e.x if not isinstance(e.x, dict) else '')
