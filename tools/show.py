#!/usr/bin/env python3
"""debug aid: pretty-print bodies of the facts file.  show.py FACTS SUBSTR..."""
import json,sys
d=json.load(open(sys.argv[1])); T=d['tys']
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='d': s+=' as v%s'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if o is None: return '?'
    k=o.get('k')
    if k in('copy','move'): return k[0]+':'+pl(o['p'])
    return json.dumps(o.get('c',o))[:160]
def rv(r):
    k=r['k']
    if k=='use': return op(r['o'])
    if k=='ref': return '&'+('mut ' if r['m'] else '')+('fake ' if r['fake'] else '')+pl(r['p'])
    if k=='bin': return '%s(%s,%s)'%(r['op'],op(r['a']),op(r['b']))
    if k=='un': return '%s(%s)'%(r['op'],op(r['o']))
    if k=='discr': return 'discr(%s)'%pl(r['p'])
    if k=='cast': return 'cast %s %s -> %s'%(r['ck'],op(r['o']),T[r['ty']]['s'])
    if k=='agg': return 'agg %s %s v%s (%s)'%(r['ak'],r.get('n',''),r.get('v',''),', '.join(map(op,r['ops'])))
    return json.dumps(r)[:200]
def body(b,ind=''):
    for i,l in enumerate(b['locals']): print(ind+'  _%d: %s %s'%(i,T[l['ty']]['s'],l.get('n','')))
    for i,bl in enumerate(b['blocks']):
        if bl.get('c'): continue
        print(ind+' bb%d:'%i)
        for s in bl['s']:
            if s['k']=='assign': print(ind+'    %s = %s'%(pl(s['p']),rv(s['r'])))
            elif s['k'] in('setdiscr',): print(ind+'   ',s)
        t=bl['t'];k=t['k']
        if k=='call':
            f=t['f']; fn=f.get('c',f); 
            c=fn.get('fn') or fn
            print(ind+'    %s = call %s (%s) -> %s   [%s]'%(pl(t['dest']),(c.get('rn') or c.get('n')) if isinstance(c,dict) else c,', '.join(map(op,t['args'])),t['to'],t['sp']))
        elif k=='switch': print(ind+'    switch %s %s else %s'%(op(t['o']),t['vs'],t['else']))
        elif k=='assert': print(ind+'    assert %s==%s %s -> %s'%(op(t['o']),t['exp'],t['msg'],t['to']))
        elif k=='drop': print(ind+'    drop %s -> %s'%(pl(t['p']),t['to']))
        else: print(ind+'    %s %s'%(k,t.get('to','')))
for b in d['bodies']:
    if len(sys.argv)<3: print(b['id'],b['kind'],b['span']); continue
    if any(x in b['id'] for x in sys.argv[2:]):
        print('==',b['id'],b['kind'],b['span'],'argc',b['argc'],'promoted',len(b['promoted'])); body(b)
        for i,p in enumerate(b['promoted']): print('  promoted',i); body(p,'   ')
