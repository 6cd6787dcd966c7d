"""Reasoning over loop summaries: statements about every element of a sequence."""
from lib import *
from itertools import product

EL = T('p', '$element')


def peel_src(src):
    """(base, [(bound var, facts or None, body)]) unwinding mapped / filtered sources"""
    maps = []
    while True:
        if src.op == 'mapseq':
            maps.append((src.a[1], (), src.a[2]))
            src = src.a[0]
        elif src.op == 'cseq' and len(src.a[2]) == 1:
            maps.append((src.a[1], src.a[2][0][0], src.a[2][0][1]))
            src = src.a[0]
        elif src.op == 'rev':
            src = src.a[0]
        elif src.op == 'app' and src.a[0] == 'sorted':
            src = src.a[1]
        elif src.op == 'slice' and is_int(src.a[1]) and src.a[1].a[1] == 0 and src.a[2] is length(src.a[0]):
            src = src.a[0]
        else:
            return src, maps


def through(maps, el):
    """element of the mapped source for base element el, and the facts under which it is visited"""
    fs = []
    for v, facts, body in reversed(maps):
        fs += list(subst_facts(facts, {v: el}))
        el = subst(body, {v: el})
    return el, fs


def state_of(facts, m=None, foralls=()):
    """state with these facts, or None when contradictory"""
    s = State()
    try:
        s.add_facts(subst_facts(facts, m) if m else facts)
    except Dead:
        return None
    s.foralls = tuple(foralls)
    return s


def merge(st, facts):
    s = st.copy()
    try:
        s.add_facts(facts)
    except Dead:
        return None
    return s


def subst_edge(e, m):
    return subst_facts(e.facts, m), e


def covering(st, seq):
    """full loops over (a mapping or filtering of) seq: [(record, element term as iterated, maps)]"""
    out = []
    for r in st.foralls:
        if not r.full:
            continue
        base, maps = peel_src(r.src)
        if base is seq:
            out.append((r, maps))
    return out


def element_cases(r, maps):
    """the ways an element EL of the base went through loop r: list of (facts over EL, edge or None for 'not visited', substitution)"""
    el, vis = through(maps, EL)
    k = r.key
    cases = []
    for e in r.edges:
        m = {at(r.src, k): el}
        cases.append((tuple(vis) + tuple(subst_facts(e.facts, m)), e, m))
    # not visited: some visiting condition fails
    for f in vis:
        cases.append(((neg_fact(f),), None, {}))
    return cases


def neg_fact(f):
    k, t, v = f
    if k == 'var':
        return ('nvar', t, v)
    if k == 'nvar':
        return ('var', t, v)
    if k == 'atom':
        return ('atom', t, not v)
    if k == 'le':
        return ('ge', t, v + 1)
    return ('le', t, v - 1)


def every_element(st, seq, condfn, witness=None):
    """Do the completed loops over seq establish condfn(EL) for each element?
    witness(state, edges) may accept a case by other means. Returns (True|False|None, explanation).
    None: no completed loop over the sequence."""
    recs = covering(st, seq)
    if not recs:
        return None, 'no completed loop over %s on this exit' % seq
    lists = [element_cases(r, maps) for r, maps in recs]
    n = 1
    for l in lists:
        n *= len(l)
    combos = product(*lists) if n <= 400 else ([c] for l in lists for c in l)
    for combo in combos:
        s = State()
        dead = False
        for facts, e, m in combo:
            s = merge(s, facts)
            if s is None:
                dead = True
                break
        if dead:
            continue
        if witness is not None and any(e is not None and witness(s, e, m, facts) for facts, e, m in combo):
            continue
        if condfn is not None:
            bad = entails(s, condfn(EL))
            if bad is None:
                continue
        else:
            bad = s
        return False, 'an element with %s passes the loop' % (show_facts(bad, 500) or 'no established fact')
    return True, '%d loop(s), %d element case(s)' % (len(recs), n)


def universe_c(adt_variants, t, v):
    return isvar(t, v, adt_variants)
