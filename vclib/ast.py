"""Small helpers over the extracted syntax tree."""
from .program import walk, children


def strip(e):
    """Without casts, copies and smart-pointer dereferences."""
    while e is not None:
        k = e.get('k')
        if k in ('cast', 'copy') and isinstance(e.get('e'), dict):
            e = e['e']
        elif k == 'call' and e.get('oper') in ('->', '*') and e.get('obj') is not None and not e.get('args'):
            e = e['obj']
        elif k == 'call' and e.get('q') in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const') and e.get('args'):
            e = e['args'][0]
        elif k == 'un' and e['op'] == '*':
            e = e['e']
        elif k == 'call' and e.get('n') in ('load', 'get', 'value') and e.get('obj') is not None and not e.get('args') and \
                e.get('q', '').startswith(('std::atomic', 'std::__atomic', 'std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr', 'std::optional')):
            e = e['obj']
        else:
            return e
    return e


ASSIGN = ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '%=', '<<=', '>>=')


def is_assign(e):
    return e['k'] == 'bin' and e['op'] in ASSIGN or e['k'] == 'call' and e.get('oper') in ASSIGN


def assign_parts(e):
    if e['k'] == 'bin':
        return e['a'], e['b']
    args = e.get('args', [])
    if e.get('obj') is not None:
        return e['obj'], args[0] if args else None
    return (args[0], args[1]) if len(args) > 1 else (None, None)


def int_const(e):
    e = strip(e)
    if e is None:
        return None
    if e['k'] in ('int', 'enum') and 'v' in e:
        try:
            return int(e['v'])
        except (TypeError, ValueError):
            return None
    if e['k'] == 'un' and e['op'] == '-':
        v = int_const(e['e'])
        return None if v is None else -v
    if 'cv' in e:
        try:
            return int(e['cv'])
        except (TypeError, ValueError):
            return None
    return None


def std_method(e):
    """(object, method) of a call to a member of a standard class"""
    if e['k'] == 'call' and e.get('obj') is not None and 'q' in e and e['q'].startswith(('std::', '__gnu_cxx::', 'google::', 'tlx::')):
        return e['obj'], e.get('n')
    return None, None


def root_var(e):
    """id of the variable an access path starts at"""
    while e is not None:
        e = strip(e)
        k = e['k']
        if k == 'ref':
            return e.get('id')
        if k == 'mem':
            e = e['base']
        elif k == 'idx':
            e = e['a']
        elif k == 'call' and e.get('obj') is not None and (e.get('oper') == '[]' or e.get('n') in ('at', 'front', 'back', 'begin', 'end', 'data', 'first', 'second')):
            e = e['obj']
        elif k == 'un' and e['op'] in ('&', '*'):
            e = e['e']
        else:
            return None
    return None


def index_parts(e):
    """(container, index) of a subscript"""
    e = strip(e)
    if e is None:
        return None, None
    if e['k'] == 'idx':
        return e['a'], e.get('i') if e.get('i') is not None else e.get('b')
    if e['k'] == 'call' and e.get('obj') is not None and (e.get('oper') == '[]' or e.get('n') == 'at') and e.get('args'):
        return e['obj'], e['args'][0]
    return None, None


def body_nodes(f):
    if f.get('b') is not None:
        yield from walk(f['b'])
    for I in f.get('inits') or []:
        if isinstance(I.get('e'), dict):
            yield from walk(I['e'])


def parents(root):
    """id(node) -> parent"""
    m = {}
    st = [root]
    while st:
        n = st.pop()
        for ch in children(n):
            if 'k' in ch:
                m[id(ch)] = n
                st.append(ch)
    return m
