"""Private struct fields are known to the rules by the role their type gives them, not by the name they have: the names in the table of
types are replaced by canonical ones where a type determines the role."""

MAPS = ('HashMap', 'BTreeMap', 'IndexMap', 'FxHashMap')
SETS = ('HashSet', 'BTreeSet')


def sig(ty):
    """short form of a type: 'map<str,set<u32>>'"""
    if ty[0] == 'prim':
        return ty[1]
    if ty[0] == 'adt':
        h = ty[1].split('::')[-1]
        if h in MAPS:
            return 'map<%s>' % ','.join(sig(x) for x in ty[2][:2])
        if h in SETS:
            return 'set<%s>' % sig(ty[2][0])
        if h in ('Vec', 'IndexSet'):
            return '%s<%s>' % (h, sig(ty[2][0]))
        if h == 'String':
            return 'str'
        return h
    return ty[0]


ROLES = {
    'message::StringField': {'u32': 'tag', 'str': 'value'},
    'message::FieldMap': {'Vec<u32>': 'field_order', 'map<u32,StringField>': 'fields', 'map<u32,Group>': 'group'},
    'message::Group': {'Vec<FieldMap>': 'fields'},
    'data_dictionary::DataDictionary': {'IndexSet<u32>': 'fields_order', 'map<str,map<u32,GroupInfo>>': 'groups', 'map<u32,set<str>>': 'field_values',
                                        'map<u32,FixType>': 'field_type', 'map<u32,str>': 'fields_by_tag', 'map<str,u32>': 'fields_by_name'},
    'data_dictionary::GroupInfo': {'u32': 'delimiter', 'DataDictionary': 'data_dictionary'},
}
# two tables of one type, told apart by the query that reads one of them
READ_BY = {'data_dictionary::DataDictionary': ('map<str,set<u32>>', [('get_msg_required_field', 'msg_required_fields'), ('get_msg_fields', 'msg_fields')])}


def fields_read(b):
    """indices of the fields of the first parameter that a body refers to"""
    out = set()
    for bl in b['blocks']:
        for s in bl['s']:
            p = (s.get('r') or {}).get('p')
            if s.get('k') == 'assign' and isinstance(p, list) and p[0] == 1 and len(p[1]) == 2 and p[1][0] == '*' and p[1][1][0] == 'f':
                out.add(p[1][1][1])
    return out


def rename(fs, i, name):
    for j, f in enumerate(fs):
        if j != i and f['n'] == name:
            f['n'] = name + "'"
    fs[i]['n'] = name


def canonical(adts, bodies, ty):
    for n, roles in ROLES.items():
        a = adts.get(n)
        if a is None or len(a['v']) != 1:
            continue
        fs = a['v'][0]['f']
        sigs = [sig(ty(f['ty'])) for f in fs]
        for s, name in roles.items():
            if sigs.count(s) == 1 and fs[sigs.index(s)]['n'] != name:
                rename(fs, sigs.index(s), name)
        if n in READ_BY:
            s, by = READ_BY[n]
            same = [i for i, x in enumerate(sigs) if x == s]
            if len(same) != 2 or {fs[i]['n'] for i in same} == {name for q, name in by}:
                continue
            for q, name in by:
                b = next((b for i, b in bodies.items() if i.endswith('::' + q)), None)
                r = [i for i in (fields_read(b) if b else ()) if i in same]
                if len(r) == 1:
                    rename(fs, r[0], name)
                    rename(fs, [i for i in same if i != r[0]][0], next(m for k, m in by if m != name))
                    break
