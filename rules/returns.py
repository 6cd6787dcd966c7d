"""C51 (every operation returns): no iteration and no call chain that repeats itself on the same values."""
from lib import *
from effects import entry_points, norm_name
from ir import IR

SAME = ('clone', 'as_ref', 'as_str', 'as_bytes', 'as_slice', 'borrow', 'deref', 'to_owned', 'to_string', 'into_string', 'to_vec', 'as_deref', 'borrow_mut', 'as_mut', 'deref_mut',
        'into_boxed_str', 'from_ref')
ASKING = ('alternate', 'precision', 'width', 'fill', 'sign_plus', 'is_human_readable', 'sign_aware_zero_pad')
SERIALIZER = ('S', '__S')
TEXT = ('to_string', 'new_display')
JSON = ('to_string', 'to_vec', 'to_value', 'to_string_pretty', 'to_vec_pretty', 'to_writer', 'serialize_field', 'serialize_newtype_struct', 'serialize_some', 'serialize_entry', 'serialize_value',
        'serialize_element', 'serialize', 'collect_str', 'serialize_newtype_variant')


def bodies(ir):
    for i, b in enumerate(ir.bodies):
        if b is not None and b['crate'] == ir.crate and b['blocks']:
            yield i, b


def calls(b):
    for n, bl in enumerate(b['blocks']):
        t = bl and bl.get('t')
        if t and t[0] == 'call' and isinstance(t[1], dict):
            yield n, t


def peel(ir, t):
    while True:
        ty = ir.types[t]
        if ty['k'] in ('ref', 'ptr') or ty.get('box') or ty.get('p') in ('alloc::boxed::Box', OPTION, 'alloc::vec::Vec'):
            t = ty['a'][0]
            continue
        return ty


def origins(b):
    """locals that hold (a reference to, or a copy of) a whole parameter"""
    org = {i + 1: {i} for i in range(b['argc'])}
    src = {}
    dirty = set()
    for bl in b['blocks']:
        if not bl:
            continue
        for s in bl['s']:
            if s[0] != '=':
                continue
            rv = s[2]
            if rv[0] == 'ref' and rv[1] or rv[0] == 'rawptr':
                dirty.add(rv[2][0] if rv[0] == 'ref' else -1)
            if s[1][1]:
                dirty.add(s[1][0])
                continue
            pl = None
            if rv[0] == 'use' and rv[1][0] in ('cp', 'mv'):
                pl = rv[1][1]
            elif rv[0] == 'ref':
                pl = rv[2]
            src.setdefault(s[1][0], []).append(pl[0] if pl and all(e[0] == '*' for e in pl[1]) else None)
        t = bl.get('t')
        if t and t[0] == 'call' and isinstance(t[1], dict) and not t[3][1]:
            a = t[2]
            one = len(a) == 1 and a[0][0] in ('cp', 'mv') and not a[0][1][1] and t[1].get('name') in SAME and t[1].get('rcrate') != b['crate']
            src.setdefault(t[3][0], []).append(a[0][1][0] if one else None)
    ch = True
    while ch:
        ch = False
        for d, ss in src.items():
            if d <= b['argc']:
                dirty.add(d)
                continue
            o = [org.get(x) for x in ss]
            r = o[0] if all(x == o[0] for x in o) else None
            if r and org.get(d) != r:
                org[d] = r
                ch = True
    return {d: min(o) for d, o in org.items() if d not in dirty and not (o & {p - 1 for p in dirty if p <= b['argc']})}


def impls(ir, trait, meth, ty):
    """local implementation of a trait method for a type"""
    for r in ir.roots:
        if r['name'] == meth and r.get('impl_trait', '').split('<')[0].endswith(trait) and ir.types[r['impl_self']]['s'] == ty['s']:
            yield r['id']


def edges(ir, b):
    """(block, callee body, {callee parameter: caller parameter}, description) of the calls that hand on whole parameters"""
    org = origins(b)
    for n, t in calls(b):
        f = t[1]
        m = {}
        for i, a in enumerate(t[2]):
            if a[0] in ('cp', 'mv') and all(e[0] == '*' for e in a[1][1]) and a[1][0] in org:
                m[i] = org[a[1][0]]
        if 'body' in f and ir.bodies[f['body']] is not None and f.get('rcrate') == ir.crate:
            yield n, f['body'], m, f['path']
            continue
        name = f.get('name')
        ts = [x for x in f.get('targs') or [] if isinstance(x, int)] + ([f['self']] if isinstance(f.get('self'), int) else [])
        want = []
        if name in TEXT and f['path'].startswith(('alloc::string', 'core::fmt')):
            want.append(('Display', 'fmt'))
        if name == 'new_debug':
            want.append(('Debug', 'fmt'))
        if name in JSON and f['path'].startswith(('serde_json::', 'serde::', 'serde_core::')):
            want.append(('Serialize', 'serialize'))
        if name == 'collect_str':
            want.append(('Display', 'fmt'))
        for trait, meth in want:
            for i, p in m.items():
                for x in ts:
                    for q in impls(ir, trait, meth, peel(ir, x)):
                        yield n, q, {0: p}, '%s of %s' % (trait, peel(ir, x)['s'])


def avoidable(b, n):
    """the function can return without passing block n"""
    seen, todo = set(), [0]
    while todo:
        x = todo.pop()
        if x in seen or x == n:
            continue
        seen.add(x)
        t = b['blocks'][x]['t']
        if t[0] == 'return':
            return True
        todo += IR.succ(t)
    return False


def c51(ck):
    ir = ck.ir
    n = pub = loops = 0
    for r in entry_points(ir):
        b = ir.bodies[r['id']]
        outs = ck.run_root(r, [P('a%d' % i) for i in range(b['argc'])])
        n += 1
        pub += 'impl_trait' not in r
        bad = False
        for o in outs:
            loops += len(o.st.foralls)
            if o.kind != 'panic' or not isinstance(o.val, tuple) or o.val[0] != FOREVER:
                continue
            bad = True
            ops = {norm_name(x) for t in fact_terms(o.st) for x in opaque_in(t)} | {str(x) for x in o.st.unk}
            d = 'goes on for ever (%s at %s) when: %s' % (o.val[1], o.val[2], show_facts(o.st))
            if ops:
                ck.undecided('returns', r['path'], d + ' ;; the path is decided by %s' % sorted(ops)[:3])
            else:
                ck.violate('returns', r['path'], o.val[1], d)
        if not bad:
            ck.ok('returns', r['path'], '%d exits' % len(outs))
    for w in sorted(ck.m.unranked):
        ck.undecided('loop', w, 'nothing was found that bounds the number of iterations')
    # chains of calls
    graph = {}
    m = 0
    for i, b in bodies(ir):
        es = list(edges(ir, b))
        graph[i] = es
        m += len(es)
    for i in sorted(graph):
        path = cycle(ir, graph, i)
        if path is None:
            continue
        w = ir.bodies[i]['path']
        d = 'calls itself with the same value: ' + ' -> '.join([w] + [e[3] for _, e in path])
        soft = [x for x, e in path if avoidable(ir.bodies[x], e[0]) and any(t[1].get('name') in ASKING for _, t in calls(ir.bodies[x]))]
        if soft:
            ck.undecided('recursion', w, d + ' ;; depends on how it is asked')
        else:
            ck.violate('recursion', w, 'cycle', d)
    ck.ok('recursion', 'call graph', '%d functions, %d calls that hand on a whole parameter' % (len(graph), m))
    ck.floor(n, 400, 'entry points')
    ck.floor(pub, 25, 'public functions')


def cycle(ir, graph, start):
    """shortest chain of calls from start back to start in which every value parameter returns to its place"""
    vals = value_params(ir.bodies[start], ir)
    if not vals:
        return None
    todo = [(start, None, ())]
    seen = set()
    while todo:
        nxt = []
        for x, mp, path in todo:
            for e in graph.get(x, ()):
                # parameters of the callee in terms of those of start
                m2 = {k: (v if mp is None else mp.get(v)) for k, v in e[2].items()}
                m2 = {k: v for k, v in m2.items() if v is not None}
                if not m2:
                    continue
                if e[1] == start:
                    if all(m2.get(k) == k for k in vals):
                        return path + ((x, e),)
                    continue
                key = (e[1], tuple(sorted(m2.items())))
                if key in seen or len(path) > 6:
                    continue
                seen.add(key)
                nxt.append((e[1], m2, path + ((x, e),)))
        todo = nxt
    return None


def value_params(b, ir):
    """the parameters whose values decide what the function does; None when it can be told more by what it may change"""
    r = []
    for i in range(b['argc']):
        ty = ir.types[b['locals'][i + 1]]['s']
        if 'Formatter<' in ty or ty in SERIALIZER:
            continue
        if ty.startswith('&mut ') or '&mut ' in ty:
            return None
        r.append(i)
    return r


RULES = {'C51': c51}
