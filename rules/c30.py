"""Generated field types against the dictionary they are generated from: the number returned by, and the tag and text stored by, each generated
type are constants (respectively the printed argument) of its MIR; they are compared with the declarations of the file the library is built with."""
import os
import xml.etree.ElementTree as ET
from .base import *


def check(c):
    c.rule = 'every declared field has a generated type with its number'
    E = c.engine()
    path = os.path.join(os.environ.get('REPO', '/repo'), 'resources', 'FIX43.xml')
    c.ob('anchor:dictionary', os.path.exists(path), 'the dictionary of the build is not there')
    if not os.path.exists(path):
        return
    decl = {}
    for f in ET.parse(path).getroot().find('fields'):
        if f.tag == 'field':
            c.ob('dictionary:unique:' + f.get('name'), f.get('name') not in decl, 'declared twice')
            decl[f.get('name')] = int(f.get('number'))
    types = {n.split('::')[-1]: n for n, a in E.adts.items() if a.get('local') and n.split('::')[-2:-1] == ['fields']}
    c.floor('declared fields', len(decl), 500)
    for n, no in sorted(decl.items()):
        num, new = (E.bodies.get('fields::%s::%s' % (n, f)) for f in ('field', 'new'))
        if not c.ob('type:' + n, num is not None and new is not None and n in types, 'field %s has no type' % n):
            continue
        c.count('fields compared')
        _, trs = E.run(num)
        c.ob('number:' + n, [(t.kind, t.val) for t in trs] == [('ret', I(no))], 'the type of field %s has the number %s instead of %d' % (n, [show(t.val) for t in trs if t.kind == 'ret'], no), num['span'])
        av, trs = E.run(new)
        for t in trs:
            v = t.val if t.kind == 'ret' else None
            good = v is not None and v[0] == 'adt' and len(v) == 4 and I(no) in v[3]
            c.ob('tag:' + n, good, 'a value of field %s does not have the tag %d' % (n, no), new['span'])
            text = ('app', 'text', E.deep(t.st, E.v(t.st, av[0])))
            c.ob('value:' + n, good and text in v[3], 'a value of field %s is not the text it was made of' % n, new['span'])
    c.note(E, 'fields::*', [])
    c.analysed |= E.analysed
