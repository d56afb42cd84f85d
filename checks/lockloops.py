"""Loops that collect several locks of one kind: they must take them in one global order."""
import re
from fa import fa, children

LOCKS = {'lock', 'lock_shared'}
UNLOCKS = {'unlock', 'unlock_shared', 'Unlock'}
TREE = re.compile(r'std::(multi)?(set|map)<|_Rb_tree')


def mname(n):
    return (n.get('qn') or '').split('::')[-1]


def subtree(f, i, out=None):
    out = [] if out is None else out
    st = [i]
    while st:
        k = st.pop()
        if k in out:
            continue
        out.append(k)
        st.extend(children(f.x[k]))
    return out


def inits(f):
    """decl -> expressions which give the variable its value."""
    r = {}
    for i, n in enumerate(f.x):
        if n.get('k') == 'decl':
            for v in n['v']:
                if v.get('i') is not None:
                    r.setdefault(v['d'], []).append(v['i'])
        elif n.get('k') == 'bin' and n.get('op') == '=' and f.x[n['l']].get('k') == 'var':
            r.setdefault(f.x[n['l']]['d'], []).append(n['r'])
    return r


def closure(f, i, ini):
    """Nodes that the value of expression i is made of, through local initializers."""
    nodes, decls = set(), set()
    st = [i]
    while st:
        for k in subtree(f, st.pop()):
            if k in nodes:
                continue
            nodes.add(k)
            n = f.x[k]
            if n.get('k') == 'var' and n['d'] not in decls:
                decls.add(n['d'])
                st.extend(ini.get(n['d'], []))
    return nodes, decls


def loops_of(F, f, i):
    """Loops (block sets) whose body evaluates expression i."""
    out = []
    for head, body in F.loop_blocks.items():
        for b in body:
            st = [e[1] for e in F.exec[b] if e[0] in ('s', 't') and isinstance(e[1], int)]
            if any(i == s or i in subtree(f, s) for s in st):
                out.append(body)
                break
    return out


def nodes_in(F, f, body):
    out = set()
    for b in body:
        for e in F.exec[b]:
            if e[0] in ('s', 't') and isinstance(e[1], int):
                out.update(subtree(f, e[1]))
    return out


def wrappers(prog, summ):
    w = {}
    for f in prog.funcs.values():
        if not f.has_body or not f.cls or f.cls.startswith('std::'):
            continue
        names = [(mname(n), n) for n in f.x if n.get('k') == 'call']
        if any(m in UNLOCKS for m, n in names):
            continue
        lk = [n for m, n in names if m in LOCKS and n.get('m') is not None]
        if len(lk) == 1 and f.x[lk[0]['m']].get('k') == 'mem' and f.x[f.x[lk[0]['m']].get('b', 0)].get('k') == 'this' and f.kind == 'method' \
                and len(f.blocks) <= 4:
            w[f.id] = f
    return w


def sorted_by(f, F, ini, decls, body_nodes):
    for i, n in enumerate(f.x):
        if n.get('k') == 'call' and n.get('qn') in ('std::sort', 'std::stable_sort') and i not in body_nodes:
            for a in n['a']:
                if closure(f, a, {})[1] & decls:
                    return 'descending or custom' if len(n['a']) > 2 else 'ascending'
    return None


def order_of(prog, summ, f, F, recv, body, depth=0):
    ini = inits(f)
    nodes, decls = closure(f, recv, ini)
    types = [f.x[k].get('ty', '') for k in nodes] + [f.x[k].get('vt', '') for k in nodes]
    bn = nodes_in(F, f, body)
    if any('unordered_' in t for t in types):
        return None
    if any('reverse_iterator' in t for t in types):
        return 'descending or custom'
    if any(TREE.search(t) for t in types):
        return 'descending or custom' if any('std::greater' in t for t in types) else 'ascending'
    s = sorted_by(f, F, ini, decls, bn)
    if s:
        return s
    sub = [k for k in nodes if f.x[k].get('k') == 'sub' or (f.x[k].get('k') == 'call' and f.x[k].get('op') == '[]')]
    cnt = set()
    for k in bn:
        n = f.x[k]
        if n.get('k') == 'un' and '++' in n.get('op', '') and f.x[n['s']].get('k') == 'var':
            cnt.add(f.x[n['s']]['d'])
    if len(sub) == 1:
        n = f.x[sub[0]]
        ix = n['i'] if n['k'] == 'sub' else n['a'][0]
        while f.x[ix].get('k') in ('cast', 'paren') and children(f.x[ix]):
            ix = children(f.x[ix])[0]
        if f.x[ix].get('k') == 'var' and f.x[ix]['d'] in cnt:
            return 'ascending'
    # a container made by a helper which sorts, or returns an ordered container
    for k in nodes:
        n = f.x[k]
        g = prog.funcs.get(n.get('fn')) if n.get('k') == 'call' else None
        if g is not None and g.has_body and g.file.startswith('tkrzw') and any(
                m.get('k') == 'call' and m.get('qn') in ('std::sort', 'std::stable_sort') for m in g.x):
            return 'ascending'
    # a helper which is given the container: look at its callers
    if depth < 2:
        par = {p['d']: j for j, p in enumerate(f.ps)}
        got = []
        for d in decls & set(par):
            for g in prog.funcs.values():
                if not g.has_body:
                    continue
                for i, n, cs in summ.direct_calls(g):
                    if f.id in cs and len(n.get('a', ())) > par[d]:
                        G = fa(g)
                        a = n['a'][par[d]]
                        gi = inits(g)
                        gn, gd = closure(g, a, gi)
                        ty = [g.x[k].get('ty', '') for k in gn]
                        if any(TREE.search(t) for t in ty) and not any('unordered_' in t for t in ty):
                            got.append('ascending')
                        else:
                            got.append(sorted_by(g, G, gi, gd, set()))
        if got and all(got):
            return got[0] if len(set(got)) == 1 else None
        if any(got) and not all(got):
            # several parameters: one ordered parameter is enough if every caller orders it
            return None
    return None


def family(prog, f, recv, g):
    """Name of the mutex that is locked."""
    if g is not None:
        for n in g.x:
            if n.get('k') == 'call' and mname(n) in LOCKS:
                return family(prog, g, n['m'], None)
    n = f.x[recv]
    for k in subtree(f, recv):
        if f.x[k].get('k') == 'mem' and 'utex' in f.x[k].get('ty', ''):
            return '%s of %s' % (f.x[k].get('f', 'mutex'), f.x[k].get('c', '?').replace('tkrzw::', ''))
    return n.get('ty', '?')


def collect(prog, summ):
    """(function, line, family, order or None) of every loop which collects locks."""
    w = wrappers(prog, summ)
    out = []
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.has_body or f.qn.startswith('std::') or not f.file.startswith('tkrzw'):
            continue
        F = None
        for i, n, cs in summ.direct_calls(f):
            if n.get('m') is None:
                continue
            g = next((w[c] for c in cs if c in w), None)
            if mname(n) not in LOCKS and g is None:
                continue
            if g is None and any(c in prog.funcs and prog.funcs[c].cls and prog.funcs[c].cls.startswith('tkrzw') and
                                 'Mutex' not in prog.funcs[c].cls for c in cs):
                continue
            F = F or fa(f)
            if not F.in_loop(i):
                continue
            for body in loops_of(F, f, i):
                names = [mname(f.x[k]) for k in nodes_in(F, f, body) if f.x[k].get('k') == 'call']
                if any(m in UNLOCKS or m.startswith('wait') for m in names):
                    continue
                if not any(d for d in closure(f, n['m'], {})[1]):
                    continue
                out.append((f, n.get('ln'), family(prog, f, n['m'], g), order_of(prog, summ, f, F, n['m'], body)))
    return out
