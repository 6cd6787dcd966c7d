"""Credential offers, metadata and response construction: C06, C08, C09, C10, C33, C38."""
from lib import *
from seqs import *
import wirelib

CO = 'CredentialIssuer::create_offer'
md, creds, ep, acf, pre = map(P, ('metadata', 'credentials', 'endpoint', 'authorized_flow', 'pre_authorized_flow'))
CS = F(md, 'credentials_supported')
COI = ('CredentialId', 'Credential')


def offer_outs(ck):
    return ck.run(CO, md, creds, ep, acf, pre)


def entry_match(st, facts, idterm):
    """keys of metadata entries whose id equals idterm according to the facts"""
    out = []
    for k, t, v in facts:
        if k == 'atom' and v is True and t.op == 'eq':
            for a, b in (t.a, t.a[::-1]):
                if a is idterm and b.op == 'fld' and b.a[1:] == ('Some', '0'):
                    i = b.a[0]
                    if i.op == 'fld' and i.a[2] == 'id' and i.a[0].op == 'at' and i.a[0].a[0] is CS:
                        out.append(i.a[0])
        if k == 'atom' and v is True and t.op == 'in' and t.a[1] is idterm and whole_id_set(t.a[0]):
            out.append(t.a[0])
    return out


def whole_id_set(s):
    """a set (or sequence) holding ids of metadata entries only"""
    if s.op == 'app' and s.a[0] in ('setof', 'sorted', 'mapof'):
        s = s.a[1]
    base, maps = peel_src(s)
    if base is not CS or not maps:
        return False
    el, fs = through(maps, EL)
    if el.op == 'tup' and el.a:
        el = el.a[0]
    return el is S0(F(EL, 'id'))


def C08(ck):
    # ---- one reference
    w = 'CredentialOrId::resolve'
    self = P('self')
    oks, errs = ck.split(ck.run(w, self, md))
    kinds = set()
    for o, v in oks:
        k = o.st.variant(self)
        kinds.add(k)
        if k == 'Credential':
            ck.value(o, v, fld(self, 'Credential', '0'), 'embedded-unchanged', w)
        elif k == 'CredentialId':
            ents = entry_match(o.st, o.st.facts(), fld(self, 'CredentialId', '0'))
            good = any(v is F(e, 'format') for e in ents)
            ck.require(good, 'id-resolves-to-entry-with-that-id', w, 'entry', 'resolved value %s; entries whose id equals the identifier on this path: %s' % (str(v)[:200], ents),
                       ck.taint(o.st, [fld(self, 'CredentialId', '0')]) or (opaque_in(v) and 'unmodelled function') or None)
        else:
            ck.require(False, 'resolve-by-kind', w, 'kind', 'kind of reference undetermined on an accepting exit; value %s' % str(v)[:200], ck.taint(o.st, [self]))
    for o, v in errs:
        ck.must(o, isvar(self, 'CredentialId', COI), 'embedded-never-refused', w, 'embedded')
        not_found(ck, o, v, fld(self, 'CredentialId', '0'), w)
    ck.require(kinds >= {'Credential', 'CredentialId'}, 'floor', w, 'kinds', 'both kinds of reference resolve: %s' % kinds, ck.undec and 'not analysed')
    ck.floor(len(errs), 1, 'refusing exits of ' + w)
    # ---- lists
    w = 'CredentialOrIds::resolve_all'
    V = F(self, '0')
    oks, errs = ck.split(ck.run(w, self, md))
    for o, v in oks:
        resolved_list(ck, o, v, V, w)
    for o, v in errs:
        first_unresolved(ck, o, v, V, w)
    ck.floor(len(oks), 1, 'accepting exits of ' + w)
    ck.floor(len(errs), 1, 'refusing exits of ' + w)
    # ---- offers
    oks, errs = ck.split(offer_outs(ck))
    for o, v in oks:
        V = fld(fld(fld(v, '', '0'), '', 'credentials'), '', '0')
        all_resolve(ck, o, V, CO)
    n = 0
    for o, v in errs:
        if err_name(v) == 'CredentialIdNotInIssuerMetadata':
            n += 1
            i = fld(v, err_name(v), 'id')
            V = None
            for x in subterms(i):
                if x.op == 'at' and contains(x.a[0], lambda t: t is creds):
                    V = x.a[0]
            if V is None:
                ck.require(False, 'reported-id-from-list', CO, 'id', 'reported id %s is not one of the identifiers' % i, ck.taint(o.st, [creds]))
            else:
                first_unresolved(ck, o, v, V, CO)
    ck.floor(len(oks), 1, 'creating exits of ' + CO)
    ck.floor(n, 1, 'unknown-id exits of ' + CO)


def not_found(ck, o, v, idt, w):
    """the refusal reports idt and no metadata entry has that id"""
    if err_name(v) != 'CredentialIdNotInIssuerMetadata':
        ck.require(False, 'refusal-names-id', w, str(err_name(v)), 'refused as %s' % str(v)[:200], None)
        return
    ck.value(o, fld(v, err_name(v), 'id'), idt, 'refusal-names-id', w, 'id', 'reported id')
    r, why = every_element(o.st, CS, lambda el: Or(none(F(el, 'id')), ~eq(S0(F(el, 'id')), idt)))
    if r is not True:
        for k, t, x in o.st.facts():
            if k == 'atom' and x is False and t.op == 'in' and t.a[1] is idt and whole_id_set(t.a[0]):
                r = True
    ck.require(r is True, 'refused-only-when-absent', w, 'present', 'refusal without having compared the identifier with every entry: %s' % why, ck.taint(o.st, [idt]))


def elem_facts(st, el):
    """is this element resolved by these facts"""
    if entails(st, isvar(el, 'Credential', COI)) is None:
        return True
    return bool(entry_match(st, st.facts(), fld(el, 'CredentialId', '0')))


def all_resolve(ck, o, V, w):
    r, why = every_element(o.st, V, None, lambda s, e, m, facts: elem_facts(s, EL))
    ck.require(r is True, 'every-id-resolved', w, 'unresolved', 'offer created without every identifier resolved: %s' % why, ck.taint(o.st, [creds, CS]))


def first_unresolved(ck, o, v, V, w):
    i = fld(v, err_name(v), 'id')
    el = None
    if i.op == 'fld' and i.a[1:] == ('CredentialId', '0') and i.a[0].op == 'at' and i.a[0].a[0] is V:
        el = i.a[0]
    if el is None:
        ck.require(False, 'reported-id-from-list', w, 'id', 'reported id %s is not an identifier of the list' % i, ck.taint(o.st, [V]))
        return
    not_found(ck, o, v, i, w)
    # everything before it resolved
    k = el.a[1]
    pr = [r for r in o.st.foralls if not r.full and r.src is V and r.key is k]
    good, why = False, 'no loop over the earlier elements'
    if is_int(k) and k.a[1] == 0:
        good = True
    for r in pr:
        good = True
        for e in r.edges:
            s = state_of(subst_facts(e.facts, {at(V, k): EL}))
            if s is not None and not elem_facts(s, EL):
                good, why = False, 'earlier element with %s' % show_facts(s, 300)
    ck.require(good, 'reported-id-is-first', w, 'first', why, ck.taint(o.st, [V]))


def resolved_list(ck, o, v, V, w):
    ents = None
    x = v
    if x.op == 'mapseq' and x.a[0] is V:
        alts = (((), x.a[2]),)
        bv = x.a[1]
    elif x.op == 'cseq' and x.a[0] is V:
        alts = x.a[2]
        bv = x.a[1]
    else:
        ck.require(False, 'one-result-per-element', w, 'shape', 'the result %s is not an element-wise image of the list' % str(v)[:300],
                   (ck.taint(o.st, [V]) or (opaque_in(v) and 'unmodelled function')) or None)
        return
    # every element contributes (exactly) one result: without the mark, all of them passed one of the cases
    cover = Or(*[And(*[fact_c(ck, f) for f in fs]) for fs, b in alts])
    bad = entails(State(), cover) if x.op == 'cseq' and x.a[3:] else None
    ck.require(bad is None, 'one-result-per-element', w, 'dropped', 'elements without a result: %s' % (bad and show_facts(bad, 300)), ck.taint(o.st, [V]))
    for fs, b in alts:
        s = state_of(fs)
        if s is None:
            continue
        k = s.variant(bv)
        if k is None and b.op == 'fld' and b.a[1] == 'Credential':
            k = 'Credential'
        if k == 'Credential':
            ck.require(b is fld(bv, 'Credential', '0'), 'embedded-unchanged', w, 'value', 'embedded credential becomes %s' % b, opaque_in(b) and 'unmodelled' or None)
            continue
        # identifier: the pushed value is the format of an entry matched in the loop over V
        good = False
        for r in o.st.foralls:
            if not r.full or r.src is not V:
                continue
            for e in r.edges:
                el = at(V, r.key)
                if not any(subst(x, {el: bv}) is b or x is b for u in e.upd.values() for x in subterms(u)):
                    continue
                es = entry_match(None, e.facts, fld(el, 'CredentialId', '0'))
                if any(F(en, 'format') is b for en in es):
                    good = True
        ck.require(good, 'id-resolves-to-entry-with-that-id', w, 'entry', 'identifier resolves to %s' % str(b)[:200],
                   ck.taint(o.st, [V]) or (opaque_in(b) and 'unmodelled') or None)


def fact_c(ck, f):
    k, t, v = f
    if k in ('var', 'nvar'):
        uni = COI if v in COI else ('None', 'Some') if v in ('None', 'Some') else ('Ok', 'Err') if v in ('Ok', 'Err') else (v, '?')
        c = isvar(t, v, uni)
        return c if k == 'var' else ~c
    if k == 'atom':
        return B(t) if v else ~B(t)
    if k == 'le':
        return le(t, Int(v))
    return le(Int(v), t)


# ------------------------------------------------------------------ C09
def C09(ck):
    oks, _ = ck.split(offer_outs(ck))
    for o, v in oks:
        off, url = fld(v, '', '0'), fld(v, '', '1')
        ck.value(o, F(off, 'credential_issuer'), F(md, 'credential_issuer'), 'offer-issuer', CO, 'issuer', 'credential_issuer')
        cr = F(off, 'credentials')
        conv = cr.op == 'app' and cr.a[0].split('|')[0].endswith('convert::Into::into') and cr.a[1] is creds
        ck.require(conv, 'offer-credentials', CO, 'credentials', 'credentials of the offer are the given ones converted: %s' % str(cr)[:200], None if not o.st.unk else 'unmodelled')
        g = F(off, 'grants')
        ck.value(o, F(g, 'authorized_code_flow'), acf, 'offer-grants', CO, 'authorized', 'authorization_code grant')
        ck.value(o, F(g, 'pre_authorized_code_flow'), pre, 'offer-grants', CO, 'pre-authorized', 'pre-authorized grant')
        k = o.st.variant(ep)
        enc = App('pct', fld(App('json_ser', off), 'Ok', '0'))
        exp = {'None': cat([Str('openid-credential-offer://credential_offer='), enc]),
               'Some': cat([S0(ep), Str('?credential_offer='), enc])}
        if k in exp:
            ck.value(o, url, exp[k], 'offer-url', CO, 'url-' + k, 'URL')
        else:
            ck.require(False, 'offer-url', CO, 'url', 'URL %s does not depend on whether an endpoint is given' % str(url)[:200], ck.taint(o.st, [ep]))
    ck.floor(len(oks), 2, 'creating exits of ' + CO)
    w = 'CredentialOffer::url_encode'
    s = P('self')
    oks, _ = ck.split(ck.run(w, s))
    for o, v in oks:
        ck.value(o, v, App('pct', fld(App('json_ser', s), 'Ok', '0')), 'encodes-this-offer', w, 'encode', 'encoded offer')
    ck.floor(len(oks), 1, 'accepting exits of ' + w)
    w = 'CredentialOffer::new'
    i, c, a, p = map(P, ('issuer', 'credentials', 'authorized', 'pre_authorized'))
    rs = ck.run(w, i, c, a, p)
    for o in rs:
        if o.kind != 'ret':
            continue
        for got, exp, n in ((F(o.val, 'credential_issuer'), i, 'issuer'), (F(o.val, 'credentials'), c, 'credentials'),
                            (F(o.val, 'grants', 'authorized_code_flow'), a, 'authorized'), (F(o.val, 'grants', 'pre_authorized_code_flow'), p, 'pre-authorized')):
            ck.value(o, got, exp, 'constructor-fields', w, n, n)
    ck.floor(len(rs), 1, 'exits of ' + w)


# ------------------------------------------------------------------ C10
def idof(el):
    return F(el, 'id')


def by_set_insertion(st, V):
    """every present id was inserted in an initially empty set, as a new element"""
    for r, maps in covering(st, V):
        el, vis = through(maps, EL)
        if not all(s_is_id(f) for f in vis):
            continue
        cells = {c for e in r.edges for c in e.upd}
        for c in cells:
            if not empty_set(r.init.get(c)):
                continue
            good = True
            for e in r.edges:
                m = {at(r.src, r.key): el}
                s = state_of(tuple(vis) + tuple(subst_facts(e.facts, m)))
                if s is None:
                    continue
                u = e.upd.get(c)
                if entails(s, none(idof(EL))) is None:
                    good = good and (u is None or u.op in GROW)
                    continue
                if u is None or u.op not in GROW or not phi_of(u.a[0], r, c):
                    good = False
                    break
                x = subst(u.a[1], m)
                new = s.atoms.get(T('in', u.a[0], x)) is False or not_among(e, u.a[0], u.a[1])
                if not (new and x is S0(idof(EL))):
                    good = False
                    break
            if good:
                # identifiers not visited must be absent ones
                if all(entails(state_of((neg_fact(f),)) or dead_state(), none(idof(EL))) is None for f in vis):
                    return True
    return False


def dead_state():
    return State()


def s_is_id(f):
    return f[1] is idof(EL) or contains(f[1], lambda t: t is idof(EL))


# a set gains an element by an insertion, a list used as one by a push
GROW = ('ins', 'push')


def not_among(e, ph, x):
    """an iteration went through all of ph (what earlier iterations put in it) and found x nowhere in it"""
    for q in e.foralls:
        if q.full and q.src is ph and all(s is None or entails(s, ~eq(at(ph, q.key), x)) is None for f in q.edges for s in [merge(state_of(e.facts), f.facts)]):
            return True
    return False


def empty_set(t):
    return t is not None and (t.op == 'app' and t.a[0] == 'emptyset' or t.op == 'arr' and not t.a)


def phi_of(t, r, c):
    return t.op == 'phi' and t.a[0] == r.lid and t.a[1] == c


def id_seq(s, V):
    """a sequence or set built from exactly the present ids of V"""
    if s.op == 'app' and s.a[0] in ('setof', 'sorted'):
        s = s.a[1]
    base, maps = peel_src(s)
    if base is not V or not maps:
        return False
    el, vis = through(maps, EL)
    if el is not S0(idof(EL)):
        return False
    return all(entails(state_of((neg_fact(f),)) or State(), none(idof(EL))) is None for f in vis)


def distinct_count(st, V, want=True):
    """number of distinct ids = number of ids (want) / differs (not want)"""
    for key, (lo, hi) in list(st.bnd.items()) + [(None, (None, None))]:
        pass
    cands = []
    for k, t, v in st.facts():
        for x in subterms(t):
            if x.op == 'app' and x.a[0] == 'len' and x.a[1].op == 'app' and x.a[1].a[0] == 'setof' and id_seq(x.a[1], V):
                cands.append((x, x.a[1].a[1]))
    for x, seq in cands:
        for y in {z for k, t, v in st.facts() for z in subterms(t) if z.op == 'app' and z.a[0] in ('len', 'count') and z is not x}:
            inner = y.a[1]
            if inner is seq or id_seq(inner, V) and not (inner.op == 'app' and inner.a[0] == 'setof'):
                lo, hi = st.lin_range(lin_add(y, x, -1))
                if want and hi is not None and hi <= 0:
                    return True
                if not want and lo is not None and lo >= 1:
                    return True
                d = IntCmp('Eq', y, x)
                r = st.decide(d)
                if r is want:
                    return True
    return False


def id_items(S, V):
    """element -> (id, condition under which it is absent) for a list whose elements are, or hold, the ids of V; None for other lists"""
    if S is V:
        return lambda x: (S0(idof(x)), none(idof(x)))
    T_ = S.a[1] if S.op == 'app' and S.a[0] == 'sorted' else S
    if S.op == 'app' and S.a[0] == 'setof':
        return None
    if id_seq(T_, V):
        return lambda x: (x, None)
    base, maps = peel_src(T_)
    if base is V and maps:
        el, vis = through(maps, EL)
        if el is idof(EL) and not vis:
            return lambda x: (S0(x), none(x))
        if el is EL and all(entails(state_of((neg_fact(f),)) or State(), none(idof(EL))) is None for f in vis):
            return lambda x: (S0(idof(x)), none(idof(x)))
    return None


def by_pairs(st, V):
    """a nested loop compared every pair of entries"""
    for r in st.foralls:
        if not r.full or r.src is None:
            continue
        S = r.src
        ids = id_items(S, V)
        if ids is None:
            continue
        x, nx = ids(at(S, r.key))
        good = True
        for e in r.edges:
            s = state_of(e.facts)
            if s is None or nx is not None and entails(s, nx) is None:
                continue
            ok = False
            for q in e.foralls:
                if not q.full or q.src is None:
                    continue
                base = q.src
                if base is S:
                    b = at(S, q.key)
                elif base.op == 'slice' and base.a[0] is S and half(base, r.key, S):
                    b = at(base, q.key)
                elif base.op == 'prefix' and base.a[0] is S and base.a[1] is r.key:
                    b = at(base, q.key)
                else:
                    continue
                y, ny = ids(b)
                ok = True
                for f in q.edges:
                    s2 = merge(s, f.facts)
                    if s2 is None:
                        continue
                    c = ~eq(x, y)
                    if ny is not None:
                        c = Or(ny, c)
                    same_ = inteq(r.key, q.key)
                    if base is S:
                        c = Or(c, same_)
                    if entails(s2, c) is not None:
                        ok = False
                if ok:
                    break
            if not ok:
                # the last element has no successors
                lo, hi = s.lin_range(lin_add(lin_add(length(S), r.key, -1), Int(1), -1))
                ok = hi is not None and hi <= 0
            if not ok:
                good = False
                break
        if good:
            return True
    return False


def half(sl, k, V):
    lo, hi = sl.a[1], sl.a[2]
    if lo is lin_add(k, Int(1)) and hi is length(V):
        return True
    if is_int(lo) and lo.a[1] == 0 and hi is k:
        return True
    return False


def range_over(src, V):
    return False


def sorted_ids(S, V):
    """(element -> present id, condition under which it is absent) for a sorted list made of the ids of V"""
    if not (S.op == 'app' and S.a[0] == 'sorted'):
        return None
    if id_seq(S, V):
        return lambda x: (x, None)
    base, maps = peel_src(S.a[1])
    if base is V and maps:
        el, vis = through(maps, EL)
        if el is idof(EL) and not vis:
            return lambda x: (S0(x), none(x))
    return None


def adjacent(r):
    """the list whose neighbours a loop goes through, and two neighbours as the loop reads them"""
    s = r.src
    if s is None:
        return
    if s.op == 'app' and s.a[0] == 'windows' and s.a[2].a[1] == 2:
        yield s.a[1], at(s.a[1], r.key), at(s.a[1], lin_add(r.key, Int(1)))
    S = s.a[0] if s.op == 'slice' else s
    if s.op == 'slice' and s.a[2] is length(S) and s.a[1] is Int(1) or r.full is False:
        yield S, at(S, r.key), at(S, lin_add(r.key, Int(1)))
    if s.op == 'app' and s.a[0] == 'range':
        i = at(s, r.key)
        for S in {t.a[0] for e in r.edges for k, f, v in e.facts for t in subterms(f) if t.op == 'at'}:
            if is_int(s.a[1]) and s.a[1].a[1] == 0 and s.a[2] is lin_add(length(S), Int(1), -1):
                yield S, at(S, i), at(S, lin_add(i, Int(1)))
            if is_int(s.a[1]) and s.a[1].a[1] == 1 and s.a[2] is length(S):
                yield S, at(S, lin_add(i, Int(1), -1)), at(S, i)


def short(st, S):
    lo, hi = st.lin_range(length(S))
    return hi is not None and hi <= 1


def by_neighbours(st, V):
    """no two neighbours in the sorted list of ids are equal"""
    for r in st.foralls:
        if not r.full:
            continue
        for S, a, b in adjacent(r):
            ids = sorted_ids(S, V)
            if ids is None:
                continue
            (x, nx), (y, ny) = ids(a), ids(b)
            c = ~eq(x, y)
            if nx is not None:
                c = Or(c, nx, ny)
            if all(s is None or entails(s, c) is None for e in r.edges for s in [state_of(e.facts)]):
                return True
    return any(short(st, t.a[1]) for k in st.bnd for t, _ in k if t.op == 'app' and t.a[0] == 'len' and (sorted_ids(t.a[1], V) or t.a[1] is V or sorted_ids(App('sorted', t.a[1]), V)))


def duplicate_neighbours(st, foralls, V):
    for r in foralls:
        for S, a, b in adjacent(r):
            ids = sorted_ids(S, V)
            if ids is None:
                continue
            (x, nx), (y, ny) = ids(a), ids(b)
            c = eq(x, y)
            if nx is not None:
                c = And(c, ~nx, ~ny)
            if entails(st, c) is None or r.must and all(s is None or entails(s, c) is None for e in r.must for s in [merge(st, e.facts)]):
                return True
    return False


def unique(st, V):
    return by_neighbours(st, V) or by_set_insertion(st, V) or distinct_count(st, V, True) or by_pairs(st, V)


def duplicate(st, V):
    """the exit is reached only with two equal present ids"""
    return duplicate_seen(st, st.foralls, V) or duplicate_neighbours(st, st.foralls, V) or distinct_count(st, V, False)


def duplicate_seen(st, foralls, V, depth=3):
    """the facts of st, about an iteration of the loops foralls, say that two present ids are equal; or some iteration of
    a loop must have taken a case whose facts say so"""
    for r in foralls if depth else ():
        if r.must:
            part = LoopRec(r.lid, r.src, r.edges, False, None, r.init, r.where)
            if all(s is None or duplicate_seen(s, (part,) + tuple(e.foralls), V, depth - 1) for e in r.must for s in [merge(st, e.facts)]):
                return True
    for k, t, v in st.facts():
        among = [t.a] if k == 'atom' and v is True and t.op == 'in' else []
        if k == 'atom' and v is True and t.op == 'eq':
            # equal to something put in before
            among = [(y.a[0], x) for x, y in (t.a, t.a[::-1]) if y.op == 'at' and y.a[0].op == 'phi']
        for ph, x in among:
            if x.op == 'fld' and x.a[1:] == ('Some', '0') and x.a[0].op == 'fld' and x.a[0].a[2] == 'id' and x.a[0].a[0].op == 'at' and peel_src(x.a[0].a[0].a[0])[0] is V:
                for r in foralls:
                    if ph.op == 'phi' and r.lid == ph.a[0] and not r.full and empty_set(r.init.get(ph.a[1])):
                        if all(u is None or (u.op in GROW and only_ids(u.a[1], r, V)) for e in r.edges for u in [e.upd.get(ph.a[1])]):
                            return True
            el = x
            for r in foralls:
                if ph.op == 'phi' and r.lid == ph.a[0] and not r.full and empty_set(r.init.get(ph.a[1])) and peel_src(r.src)[0] is V:
                    base, maps = peel_src(r.src)
                    y, vis = through(maps, at(V, T('k', 99999)))
                    if x is at(r.src, r.key) or True:
                        if all(u is None or u.op in GROW and (u.a[1] is at(r.src, r.key) and y is S0(idof(at(V, T('k', 99999))))) for e in r.edges for u in [e.upd.get(ph.a[1])]):
                            return True
        if k == 'atom' and v is True and t.op == 'eq':
            a, b = t.a
            if all(z.op == 'fld' and z.a[1:] == ('Some', '0') and z.a[0].op == 'fld' and z.a[0].a[2] == 'id' for z in (a, b)) and a is not b:
                x, y = a.a[0].a[0], b.a[0].a[0]
                if all(z.op == 'at' and (z.a[0] is V or id_items(z.a[0], V) or z.a[0].op in ('slice', 'prefix') and z.a[0].a[0] is V) for z in (x, y)):
                    if x.a[0] is not y.a[0] or entails(st, ~inteq(x.a[1], y.a[1])) is None:
                        return True
            S = a.a[0] if a.op == 'at' else None
            if S is not None and b.op == 'at' and b.a[0] is S and S is not V and a is not b and id_items(S, V) and id_items(S, V)(a)[1] is None and entails(st, ~inteq(a.a[1], b.a[1])) is None:
                return True
    return False


def only_ids(x, r, V):
    return x.op == 'fld' and x.a[1:] == ('Some', '0') and x.a[0] is idof(at(r.src, r.key)) and peel_src(r.src)[0] is V


def touches_ids(st, V):
    """what the exit established about the ids of V, for reports"""
    out = []
    for r in st.foralls:
        if contains(r.src, lambda t: t is V):
            out.append('%s loop over %s with cases %s' % ('completed' if r.full else 'partial', r.src, [sorted(show_facts(s, 200) for s in [state_of(e.facts)] if s) for e in r.edges]))
    return '; '.join(out)[:700] or 'nothing about the entries'


def C10(ck):
    for w, outs in ((CO, offer_outs(ck)),
                    ('CredentialIssuer::evaluate_credential_request', ck.run('CredentialIssuer::evaluate_credential_request', md, *map(P, ('request', 'offer', 'as_metadata', 'did_document', 'options'))))):
        oks, _ = ck.split(outs)
        for o, v in oks:
            ck.require(unique(o.st, CS), 'used-only-with-unique-ids', w, 'duplicates',
                       'accepted although duplicate ids are not excluded: ' + touches_ids(o.st, CS), ck.taint(o.st, [CS]))
        ck.floor(len(oks), 1, 'accepting exits of ' + w)
    w = 'CredentialIssuerMetadata::validate'
    r = ck.run_trait('Validatable', 'CredentialIssuerMetadata', 'validate', [md])
    if r is None:
        return
    oks, errs = ck.split(r)
    for o, v in oks:
        ck.require(unique(o.st, CS), 'valid-only-with-unique-ids', w, 'duplicates',
                   'accepted although duplicate ids are not excluded: ' + touches_ids(o.st, CS), ck.taint(o.st, [CS]))
    for o, v in errs:
        ck.require(duplicate(o.st, CS), 'refused-only-for-duplicates', w, 'refused',
                   'refused without two equal present ids: %s ;; %s' % (show_facts(o.st, 400), touches_ids(o.st, CS)), ck.taint(o.st, [CS]))
    ck.floor(len(oks), 1, 'accepting exits of ' + w)
    ck.floor(len(errs), 1, 'refusing exits of ' + w)


# ------------------------------------------------------------------ C38
def C38(ck):
    a = P('value')
    for self_ty, tp, exp in (
            ('credential_issuer::CredentialOrId', 'From<std::string::String>', ('CredentialId', a)),
            ('credential_issuer::CredentialOrId', 'From<&str>', ('CredentialId', a)),
            ('credential_issuer::CredentialOrId', 'CredentialFormatProfile>', ('Credential', a))):
        r = ck.run_trait('From', self_ty, 'from', [a], tp)
        w = 'CredentialOrId from ' + tp
        for o in r or []:
            if o.kind != 'ret':
                continue
            v = o.val
            good = v.op == 'adt' and v.a[1] == exp[0]
            if ck.require(good, 'entry-kind', w, 'kind', 'becomes %s' % str(v)[:200], opaque_in(v) and 'unmodelled' or None):
                ck.value(o, fld(v, exp[0], '0'), exp[1], 'entry-value', w, 'value', 'entry')
        ck.floor(len(r or []), 1, 'exits of ' + w)
    for tp, conv in (('From<&[&', False), ('From<std::vec::Vec<T>>', True)):
        r = ck.run_trait('From', 'credential_issuer::CredentialOrIds', 'from', [a], tp)
        w = 'CredentialOrIds ' + tp
        for o in r or []:
            if o.kind != 'ret':
                continue
            v = fld(o.val, '', '0')
            if not conv:
                ck.value(o, v, a, 'list-kept', w, 'list', 'list')
                continue
            good = v.op == 'mapseq' and v.a[0] is a and v.a[2].op == 'app' and v.a[2].a[0].split('|')[0].endswith('convert::Into::into') and v.a[2].a[1] is v.a[1]
            ops = {x for x in opaque_in(v) if not x.op == 'app' or not x.a[0].split('|')[0].endswith('convert::Into::into')}
            ck.require(good, 'list-converted-elementwise', w, 'list', 'list becomes %s' % str(v)[:300], (o.st.unk or ops) and 'unmodelled' or None)
        ck.floor(len(r or []), 1, 'exits of ' + w)
    w = 'CredentialOrIds::new'
    r = ck.run(w, a)
    for o in r:
        if o.kind == 'ret':
            ck.value(o, fld(o.val, '', '0'), a, 'list-kept', w, 'list', 'list')
    ck.floor(len(r), 1, 'exits of ' + w)


# ------------------------------------------------------------------ C06
def is_now(t):
    return t.op == 'app' and t.a[0] == 'now'


def timestamp(ck, o, t, w):
    ck.require(is_now(t), 'timestamp-is-now', w, 'timestamp', 'timestamp %s' % t, opaque_in(t) and 'unmodelled' or None)


def format_of_request(ck, o, w, got, fm, tags):
    fk = o.st.variant(fm)
    if is_str(got):
        poss = [x for x in tags if fk in (None, x) and x not in o.st.nvar.get(fm, ())]
        ck.require(bool(poss) and all(tags[x] == got.a[1] for x in poss), 'format-of-request', w, 'format', 'format %s when the request has %s' % (got, poss),
                   ck.taint(o.st, [fm]))
    else:
        ck.require(False, 'format-of-request', w, 'format', 'format %s' % str(got)[:200], (o.st.unk or opaque_in(got)) and 'unmodelled' or None)


def C06(ck):
    names = ['access_token', 'token_type', 'expires_in', 'scope', 'c_nonce', 'c_nonce_expires_in', 'authorization_pending', 'interval']
    w = 'AccessToken::create_access_token_success_response'
    oks, _e = ck.split(ck.run(w, *names))
    for o, v in oks:
        for n in names:
            ck.value(o, F(fld(v, '', '0'), n), P(n), 'field', w, n, n)
        timestamp(ck, o, fld(v, '', '1'), w)
    ck.floor(len(oks), 1, 'building exits of ' + w)
    en = ['error', 'error_description', 'error_uri', 'error_additional_details']
    for w in ('AccessToken::create_access_token_error_response', 'CredentialIssuer::create_credential_error_response'):
        oks, errs = ck.split(ck.run(w, *en))
        for o, v in oks:
            for n in en:
                ck.value(o, F(v, n), P(n), 'field', w, n, n)
        ck.require(not errs, 'error-response-always-built', w, 'refused', '%d refusing exits' % len(errs))
        ck.floor(len(oks), 1, 'building exits of ' + w)
    w = 'CredentialIssuer::create_credential_success_response'
    req, what, nonce = P('request'), P('credential'), P('nonce')
    oks, _e = ck.split(ck.run(w, req, what, nonce))
    tags = wirelib.format_tags(ck)
    fm = F(req, 'format')
    for o, v in oks:
        r = fld(v, '', '0')
        timestamp(ck, o, fld(v, '', '1'), w)
        k = o.st.variant(nonce)
        for f in ('c_nonce', 'c_nonce_expires_in'):
            if k is None:
                # value passed through whole
                for kk in ('None', 'Some'):
                    s = o.st.copy()
                    s.set_variant(nonce, kk)
                    nonce_field(ck, s, r, f, nonce, kk, w)
            else:
                nonce_field(ck, o.st, r, f, nonce, k, w)
        for s, kk, k2 in what_cases(o.st, what):
            acc, cred = F(r, 'acceptance_token'), F(r, 'credential')
            c = S0(what)
            if kk == 'None' or k2 == 'Credential':
                ck.value(s, acc, NONE, 'field', w, 'acceptance_token-absent', 'acceptance_token')
            else:
                ck.value(s, acc, Some(fld(c, 'AcceptanceToken', '0')), 'field', w, 'acceptance_token', 'acceptance_token')
            if kk == 'None' or k2 == 'AcceptanceToken':
                ck.value(s, cred, NONE, 'field', w, 'credential-absent', 'credential')
            else:
                good = s.variant(cred) == 'Some' and {x for x in params_of(S0(cred))} == {what} and \
                    contains(S0(cred), lambda t: t is fld(c, 'Credential', '0'))
                ck.require(good, 'field', w, 'credential', 'credential %s' % str(cred)[:300], s.unk and 'unmodelled' or None)
        format_of_request(ck, o, w, F(r, 'format'), fm, tags)
    ck.floor(len(oks), 4, 'building exits of ' + w)


def what_cases(st, what):
    for kk in ('None', 'Some'):
        s = st.copy()
        try:
            s.set_variant(what, kk)
        except Dead:
            continue
        if kk == 'None':
            yield s, kk, None
            continue
        for k2 in ('Credential', 'AcceptanceToken'):
            s2 = s.copy()
            try:
                s2.set_variant(S0(what), k2)
            except Dead:
                continue
            yield s2, kk, k2


def nonce_field(ck, st, r, f, nonce, k, w):
    if k == 'None':
        exp = NONE
    elif f == 'c_nonce':
        exp = Some(F(S0(nonce), 'c_nonce'))
    else:
        exp = F(S0(nonce), 'c_nonce_expires_in')
    ck.value(st, F(r, f), exp, 'field', w, f, f)


RULES = dict(C06=C06, C08=C08, C09=C09, C10=C10, C38=C38)
