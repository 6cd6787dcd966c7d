"""C47 leniency and strictness of readers, C48 structural equality and copies, C49 names and descriptions of errors, C50 constructors."""
from wirelib import *
from wire import guard, vkey, opt_fields
import misc


# ------------------------------------------------------------------ C47
def readers(ck):
    """structs with named members that the crate itself can read"""
    for adt, d in sorted(ck.ir.adts.items()):
        rs = impl_roots(ck, 'deserialize', 'Deserialize', adt)
        if len(rs) != 1 or '::_::' in adt or len(d['v']) != 1 or d['v'][0]['n'] != adt.split('::')[-1]:
            continue
        if any(f['n'] == '0' for f in d['v'][0]['f']):
            continue
        yield adt


def is_option(ck, adt, f, variant=None):
    return f in opt_fields(ck, adt, variant)


def lenient(ck, rule, w, tab, opt, required_default=()):
    if tab['other'] is None:
        ck.violate(rule, w, 'unknown', '%s: a member outside %s is refused' % (w, sorted(tab['names'])))
    else:
        ck.ok(rule, w, 'other members are read as %s' % tab['other'])
    for f in sorted(opt):
        if f in tab['flats'] or not tab['fields'].get(f):
            continue
        ds = tab['defaults'].get(f, set())
        ck.require(bool(ds), rule, w, 'optional ' + f, '%s: a document without the optional member %s is refused' % (w, f))
    for f, ds in sorted(tab['defaults'].items()):
        if f in opt or f in required_default or f in tab['flats'] or not tab['fields'].get(f):
            continue
        for t in sorted(ds, key=str):
            ck.require(t == 'missing_field', rule, w, 'required ' + f, '%s: a document without the required member %s is accepted, as %s' % (w, f, t),
                       'unmodelled default' if isinstance(t, T) and opaque_in(t) else None)


def refusals(ck, rule, w, vis):
    """refusals of the member loop that no value and no known member explains"""
    r = impl_root(ck, 'visit_map', 'Visitor', vis)
    for o, e in ck.split(run_flat(ck, r, [P('vis'), P('map')]))[1]:
        bad = [x for x in subterms(e) if x.op == 'app' and x.a[0].split('|')[0].split('::')[-1] in ('custom', 'unknown_field')]
        txt = [s for x in bad for s in subterms(x) if is_str(s) and 'nknown' in s.a[1]]
        if bad and (txt or any('unknown_field' in x.a[0] for x in bad)):
            ck.violate(rule, w, 'unknown', '%s: refuses the document because of a member it does not know (%s)' % (w, str(e)[:200]))
            return
    ck.ok(rule, w, 'member loop')


@guard
def reader(ck, rule, adt, spec):
    w = vkey(adt, None)
    r = impl_root(ck, 'deserialize', 'Deserialize', adt)
    vis = {visitor_in(ck, a[-1]) for o in ck.run_root(r, [P('de')]) for p, s, a, t in o.st.log
           if p.split('::')[-1] in ('deserialize_struct', 'deserialize_map')}
    tab = de_struct(ck, adt)
    lenient(ck, rule, w, tab, opt_fields(ck, adt), spec)
    for v in vis:
        refusals(ck, rule, w, v)


@guard
def tagged_reader(ck, rule, adt, _=None):
    w = vkey(adt, None)
    tag, got, left = de_tagged(ck, adt)
    for s, (v, tab) in sorted(got.items()):
        if tab is not None:
            lenient(ck, rule, '%s::%s' % (w, v), tab, opt_fields(ck, adt, v))


SPEC_DEFAULT = {'CredentialRequestProof': ('proof_type',)}
READERS = ('access_token::AccessTokenSuccessResponse', 'access_token::AccessTokenRequest', 'EvaluateAccessTokenRequestOptions', 'credential_issuer::AuthorizedCodeFlow',
           'credential_issuer::PreAuthorizedCodeFlow', 'credential_issuer::CredentialOffer', 'CredentialOfferGrants', 'CredentialSuccessResponse', 'CNonce', 'CNonceOptions',
           'EvaluateCredentialRequestOptions', 'jwt::ProofJwt', 'ProofJwtHeader', 'ProofJwtBody', 'CredentialSubject', 'CredentialSubjectDisplay', 'CredentialIssuerMetadata',
           'CredentialSupported', 'DisplayProperties', 'DisplayLogo', 'CredentialRequest', 'CredentialRequestProof', 'AuthorizationServerMetadata')


def c47(ck):
    seen = set()
    for a in READERS:
        p = ck.adt(a)
        if p is None:
            ck.undecided('anchor', a, 'type not found')
            continue
        seen.add(p)
    for a in sorted(seen | set(readers(ck))):
        reader(ck, 'reader', a, SPEC_DEFAULT.get(a.split('::')[-1], ()))
    for a in ('access_token::GrantType', 'CredentialFormatProfile'):
        tagged_reader(ck, 'reader', a)
    ck.floor(len(seen), 20, 'types read from JSON')


# ------------------------------------------------------------------ C48
def variants(ck, adt):
    for v in ck.ir.adts[adt]['v']:
        yield v['n'], [f['n'] for f in v['f']]


def parts(ck, adt, v, fs, t):
    one = len(ck.ir.adts[adt]['v']) == 1
    return [F(t, f) if one else fld(t, v, f) for f in fs]


def c48(ck):
    ir = ck.ir
    n = h = 0
    for x in ir.impls:
        t = x['trait'].split('<')[0].split('::')[-1]
        if t in ('PartialEq', 'Clone') and x['derived']:
            n += 1
            ck.ok('structural', x['full'], 'derived')
    for r in ir.roots:
        t = r.get('impl_trait', '').split('<')[0].split('::')[-1]
        if r['derived'] or 'impl_self' not in r or (t, r['name']) not in (('PartialEq', 'eq'), ('PartialEq', 'ne'), ('Clone', 'clone'), ('Clone', 'clone_from')):
            continue
        adt = adt_of(ir, r['impl_self'])
        if adt not in ir.adts:
            continue
        n += 1
        h += 1
        w = r['path']
        if r['name'] == 'clone_from' or r['name'] == 'ne':
            ck.undecided('structural', w, 'hand-written %s' % r['name'])
            continue
        if t == 'Clone':
            clone(ck, r, adt, w)
        else:
            equal(ck, r, adt, w)
    ck.floor(n, 40, 'equality and copy operations')


def clone(ck, r, adt, w):
    s = P('self')
    for o in ck.run_root(r, [s]):
        if o.kind != 'ret':
            continue
        ok = same(o.st, o.val, s)
        if not ok and o.val.op == 'adt' and o.val.a[0] == adt:
            v = o.val.a[1]
            one = len(ck.ir.adts[adt]['v']) == 1
            ok = (one or o.st.variant(s) == v) and all(same(o.st, t, F(s, f) if one else fld(s, v, f)) for f, t in o.val.a[2])
        ck.require(ok, 'copy', w, 'copy', 'the copy is %s when %s' % (str(o.val)[:300], show_facts(o.st, 300)), 'unmodelled' if opaque_in(o.val) or o.st.unk else None)


def alike(ck, ty, x, y, plain, depth=4):
    """the structural equality of x and y of type ty; members compared as one opaque value are added to plain"""
    ir = ck.ir
    t = ir.types[ir.peel(ty)]
    if t['k'] == 'bool':
        return Iff(B(x), B(y))
    if t['k'] == 'adt' and depth:
        if t['p'] == 'core::option::Option':
            return Or(And(none(x), none(y)), And(some(x), some(y), alike(ck, t['a'][0], fld(x, 'Some', '0'), fld(y, 'Some', '0'), plain, depth - 1)))
        d = ir.adts.get(t['p'])
        if d and d.get('local') and not t.get('a'):
            return struct_alike(ck, t['p'], x, y, plain, depth - 1)
    if t['k'] in ('int', 'uint'):
        return inteq(x, y)
    if not (t['k'] == 'str' or t.get('s', '').endswith('string::String')):
        plain.append((x, y))
    return eq(x, y)


def struct_alike(ck, adt, x, y, plain, depth=4):
    uni = tuple(v['n'] for v in ck.ir.adts[adt]['v'])
    alts = []
    for v in ck.ir.adts[adt]['v']:
        fs = [f['n'] for f in v['f']]
        c = [] if len(uni) == 1 else [isvar(x, v['n'], uni), isvar(y, v['n'], uni)]
        for f, p, q in zip(v['f'], parts(ck, adt, v['n'], fs, x), parts(ck, adt, v['n'], fs, y)):
            c.append(alike(ck, f['t'], p, q, plain, depth))
        alts.append(And(*c) if c else TT)
    return Or(*alts)


def equal(ck, r, adt, w):
    a, b = P('self'), P('other')
    at = ck.ir.types[ck.ir.peel(ck.ir.bodies[r['id']]['locals'][2])]
    if at.get('p') != adt:
        ck.ok('equal', w, 'compares with another type')
        return
    plain = []
    struct = struct_alike(ck, adt, a, b, plain)
    for o in ck.run_root(r, [a, b]):
        if o.kind != 'ret':
            continue
        lens = [Imp(eq(x, y), inteq(App('len', x), App('len', y))) for x, y in plain]
        for c, cls, what in ((Imp(B(o.val), struct), 'too equal', 'values that differ compare equal'), (Imp(And(struct, *lens), B(o.val)), 'too different', 'equal values compare different')):
            bad = entails(o.st, c)
            if bad is not None and looks_inside(bad, o.val, plain):
                ck.undecided('equal', w, 'a member without known structure is compared piecewise: %s' % show_facts(bad, 300))
            else:
                ck.must(o, c, 'equal', w, cls, what)


def looks_inside(st, val, plain):
    """does the exit speak about parts of a member that the rule compares as one value, other than its length"""
    wholes = {w for x, y in plain for w in (Eq(x, y), App('len', x), App('len', y))}
    members = {x for p in plain for x in p}

    def inner(t):
        if isinstance(t, tuple):
            return any(inner(x) for x in t)
        if not isinstance(t, T) or t in wholes:
            return False
        return t in members or any(inner(x) for x in t.a)
    return any(inner(t) for t in list(fact_terms(st)) + [val])


# ------------------------------------------------------------------ C49
MENTIONS = {
    ('jwt::error::JwtError', 'NotYetValid'): (('from', 'valid_from'), ('checked at', 'now')),
    ('jwt::error::JwtError', 'NotValidAnymore'): (('until', 'valid_until'), ('checked at', 'now')),
    ('credential_issuer::error::CredentialIssuerError', 'CNonceIsExpired'): (('expires at', 'expiry_timestamp'), ('before', 'now')),
    ('credential_issuer::error::CredentialIssuerError', 'CredentialIdNotInIssuerMetadata'): (('id', 'id'),),
    ('jwt::error::JwtError', 'UnsupportedAlgorithm'): (('algorithm', 'algorithm'),),
}


def texts(ck, adt):
    """{kind: list of (state, text term or None, wrapped)} of Display"""
    r = impl_root(ck, 'fmt', 'Display', adt)
    s, f = P('self'), P('f')
    res = {}
    for o in ck.run_root(r, [s, f]):
        if o.kind != 'ret':
            continue
        v = o.st.variant(s) or (ck.universe(adt)[0] if len(ck.universe(adt)) == 1 else None)
        text, other = [], False
        for e in o.st.log:
            n = e[0].split('::')[-1]
            if 'Formatter' in e[0] and n in ('write_fmt', 'write_str', 'pad'):
                t = e[2][1]
                text.append(t.a[0] if t.op == 'fargs' else t)
            elif n == 'fmt':
                text.append(App('display', e[2][0]))
            elif 'Formatter' in e[0]:
                other = True
        res.setdefault(v, []).append((o.st, cat(text) if text and not other else None, o.val))
    return res


def skeleton(t):
    return ''.join(x.a[1] if is_str(x) else '{}' for x in (t.a if t.op == 'cat' else [t]))


def c49(ck):
    n = 0
    for e in misc.CODES:
        adt = ck.adt(e)
        if adt is None:
            ck.undecided('anchor', e, 'type not found')
            continue
        kinds = {v: fs for v, fs in variants(ck, adt)}
        # names
        try:
            r = impl_root(ck, 'as_ref', 'AsRef', adt)
        except Unclear as x:
            ck.undecided('name', e, str(x))
            r = None
        s = P('self')
        names = {}
        for o in (ck.run_root(r, [s]) if r else []):
            if o.kind != 'ret':
                continue
            v = o.st.variant(s) or (list(kinds)[0] if len(kinds) == 1 else None)
            n += 1
            ck.require(is_str(o.val) and o.val.a[1] == v, 'name', '%s::%s' % (e, v), 'name', 'the name of %s::%s is %s' % (e, v, o.val),
                       'unmodelled' if v is None or opaque_in(o.val) or o.st.unk else None)
        # descriptions
        try:
            tx = texts(ck, adt)
        except Unclear as x:
            ck.undecided('text', e, str(x))
            continue
        seen = {}
        for v in kinds:
            w = '%s::%s' % (e, v)
            if v not in tx:
                ck.undecided('text', w, 'no description found')
                continue
            for st, t, val in tx[v]:
                n += 1
                inner = fld(s, v, '0')
                if t is None:
                    ck.require(any(x == inner for x in subterms(val)), 'text', w, 'text', 'the description of %s is %s' % (w, str(val)[:200]), 'unmodelled')
                    continue
                k = skeleton(t)
                if k == '{}' and kinds[v] == ['0']:
                    ck.require(inner in set(subterms(t)), 'text', w, 'wrapped', 'the description of %s is %s, which is not that of the wrapped error' % (w, t))
                    continue
                ck.require(any(c.isalpha() for c in k.replace('{}', '')), 'text', w, 'empty', 'the description of %s is %s' % (w, str(t)[:200]), 'unmodelled' if opaque_in(t) or st.unk else None)
                if k in seen and seen[k] != v:
                    ck.violate('text', w, 'shared', '%s and %s have the same description %r' % (v, seen[k], k))
                seen[k] = v
                for x in subterms(t):
                    if x.op == 'fld' and x.a[0] == s and x.a[1] not in (v, ''):
                        ck.violate('text', w, 'field', 'the description of %s mentions a value of %s' % (w, x.a[1]))
                mention(ck, w, MENTIONS.get((e, v), ()), t, s, v, st)
    ck.floor(n, 90, 'names and descriptions of error kinds')


def mention(ck, w, rows, t, s, v, st):
    """the value that follows a word of the description"""
    segs = t.a if t.op == 'cat' else [t]
    for word, f in rows:
        for a, b in zip(segs, segs[1:]):
            if is_str(a) and a.a[1].rstrip(" `'\":").endswith(word):
                fs = {x.a[2] for x in subterms(b) if x.op == 'fld' and x.a[0] == s}
                ck.require(fs == {f}, 'text.value', w, word, 'the description of %s gives %s after %r, expected %s' % (w, sorted(fs) or b, word, f),
                           'unmodelled' if opaque_in(b) and not fs else None)
                break


# ------------------------------------------------------------------ C50
def c50(ck):
    def built(w, args, rows, adt):
        for o in ck.run(w, *args):
            if o.kind != 'ret':
                continue
            for path, exp in rows:
                ck.value(o, F(o.val, *path) if o.val.op != 'adt' else get(o.val, path), exp, 'new', w, '.'.join(path), 'field %s' % '.'.join(path))

    def get(t, path):
        for p in path:
            d = dict(t.a[2]) if t.op == 'adt' else None
            t = d[p] if d and p in d else F(t, p)
        return t
    built('CredentialOffer::new', ('ci', 'creds', 'auth', 'pre'),
          [(('credential_issuer',), P('ci')), (('credentials',), P('creds')), (('grants', 'authorized_code_flow'), P('auth')), (('grants', 'pre_authorized_code_flow'), P('pre'))], 'CredentialOffer')
    built('CredentialOrIds::new', ('items',), [(('0',), P('items'))], 'CredentialOrIds')
    for w in ('error::ErrorInformation::new',):
        for o in ck.run(w, 'code', 'name', 'description', 'info'):
            if o.kind != 'ret':
                continue
            for f, p in (('code', 'code'), ('name', 'name'), ('description', 'description'), ('additional_information', 'info')):
                got = get(o.val, (f,))
                want = P(p)
                ok = same(o.st, got, want) or got.op == 'app' and got.a[0].split('|')[0].split('::')[-1] in ('into', 'from') and got.a[-1] == want
                ck.require(ok, 'new', w, f, 'field %s of ErrorInformation is %s, expected the argument %s' % (f, str(got)[:200], p),
                           'unmodelled' if opaque_in(got) and want in set(subterms(got)) or o.st.unk else None)
    ck.floor(len(ck.obl), 9, 'constructor fields')


RULES = dict(C47=c47, C48=c48, C49=c49, C50=c50)
