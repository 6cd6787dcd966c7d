"""C30-C37: what crosses the wire, under which names.

The tables of wirelib (recovered from the MIR of the generated and hand-written (de)serialisers) are compared with
the tables below, which state the OpenID4VCI names. A row is (member name, field, policy): 'r' always written,
'omit' written exactly when present, 'opt' null or omitted when absent."""
from wirelib import *
import issuer

PRE = 'urn:ietf:params:oauth:grant-type:pre-authorized_code'


# ------------------------------------------------------------------ comparison
def guard(f):
    def g(ck, rule, adt, *a, **k):
        p = ck.adt(adt)
        if p is None:
            ck.undecided(rule, adt, 'type not found')
            return None
        try:
            return f(ck, rule, p, *a, **k)
        except Unclear as e:
            ck.undecided(rule, adt, 'shape of the implementation not read: %s' % e)
            return None
    return g


def unwrap(ck, st, t):
    """the value a `serialize_with` wrapper writes, when it writes exactly one"""
    if t.op == 'adt' and '__SerializeWith' in t.a[0]:
        sh = [s for _, s in ser_shapes(ck, t.a[0], self_=t)]
        vs = {s[1] for s in sh if s[0] in ('deleg', 'str')}
        if len(vs) == 1 and all(s[0] in ('deleg', 'str') for s in sh):
            return vs.pop()
        raise Unclear('serialize_with wrapper %s' % str(sh)[:200])
    return t


def val_is(ck, st, t, f):
    t = unwrap(ck, st, t)
    return t == f or t == S0(f) or same(st, t, f)


def vkey(adt, variant):
    return adt.split('::')[-1] + ('::' + variant if variant else '')


def shapes(ck, rule, adt, variant=None):
    """(state, shape) of writing; unreadable ones are reported and dropped"""
    res = []
    for st, s in ser_shapes(ck, adt):
        if variant and not feasible(st, isvar(P('self'), variant, ck.universe(adt))):
            continue
        if s[0] == '?':
            ck.undecided(rule, vkey(adt, variant), 'writing not read: %s' % s[1])
            continue
        res.append((st, s))
    return res


@guard
def writes(ck, rule, adt, rows, flats=(), exact=False, variant=None, tag=None):
    w = vkey(adt, variant)
    base = P('self')
    F_ = lambda f: fld(base, variant or '', f)
    sh = shapes(ck, rule, adt, variant)
    if not sh:
        return
    have = {f['n'] for v in ck.ir.adts[adt]['v'] if not variant or v['n'] == variant for f in v['f']}
    for st, s in sh:
        if s[0] != 'obj':
            ck.violate(rule, w, 'form', '%s is not written as a JSON object: %s' % (w, str(s)[:200]))
            continue
        ent = s[1]
        names = [n for n, _ in ent]
        for n in sorted({n for n in names if names.count(n) > 1}):
            ck.violate(rule, w, 'twice ' + n, '%s writes member %r twice' % (w, n))
        d = dict(ent)
        if tag:
            k, v = tag
            ok = k in d and d[k] == T('s', v) or k in d and is_str(d[k]) and d[k].a[1] == v
            ck.require(ok, rule, w, 'tag', '%s is written with %s = %s, expected %r' % (w, k, d.get(k), v))
        for n, f, pol in rows:
            if f not in have:
                ck.undecided(rule, w, 'field %s not found' % f)
                continue
            if n in d:
                if not val_is(ck, st, d[n], F_(f)):
                    op = opaque_in(unwrap(ck, st, d[n]))
                    ck.require(False, rule, w, 'value ' + n, '%s writes %s under %r, expected its field %s' % (w, str(d[n])[:200], n, f),
                               'unmodelled: %s' % str(op)[:100] if op else None)
                elif pol == 'omit':
                    bad = entails(st, some(F_(f)))
                    ck.require(bad is None, rule, w, 'null ' + n, '%s writes member %r also when the field %s is absent ;; %s' % (w, n, f, show_facts(st, 300)))
                else:
                    ck.ok(rule, w, '%r carries %s' % (n, f))
            elif pol in ('omit', 'opt'):
                bad = entails(st, none(F_(f)))
                ck.require(bad is None, rule, w, 'dropped ' + n, '%s does not write member %r although the field %s may be present (written: %s) ;; %s' % (w, n, f, names, show_facts(st, 300)))
            else:
                ck.violate(rule, w, 'missing ' + n, '%s does not write member %r (written: %s)' % (w, n, names))
        known = {n for n, _, _ in rows} | ({tag[0]} if tag else set())
        ffs = {f for _, f, _ in rows} | set(flats)
        for n, v in ent:
            if n in known:
                continue
            again = [f for f in ffs if f in have and val_is(ck, st, v, F_(f))]
            if exact or again:
                ck.violate(rule, w, 'extra ' + n, '%s writes member %r (%s), which is not among %s' % (w, n, str(v)[:120], sorted(known)))
        for f in flats:
            if f not in have:
                ck.undecided(rule, w, 'field %s not found' % f)
                continue
            hit = [t for t in s[2] if val_is(ck, st, t, F_(f))]
            if hit:
                ck.ok(rule, w, 'members of %s are written into the object itself' % f)
            else:
                bad = entails(st, none(F_(f)))
                ck.require(bad is None, rule, w, 'flat ' + f, '%s does not write the members of %s into the object itself (written: %s)' % (w, f, names))
    ck.ok(rule, w, '%d writing paths, members %s' % (len(sh), [r[0] for r in rows]))


def reads_table(ck, rule, w, tab, rows, flats, opt):
    for n, f, pol in rows:
        to = [g for g, ns in tab['fields'].items() if n in ns]
        ck.require(to == [f], rule, w, 'read ' + n, '%s: member %r is read into %s, expected %s' % (w, n, to or 'nothing', f))
    for f in flats:
        ck.require(f in tab['flats'], rule, w, 'flat ' + f, '%s: the members of %s are not read from the object itself' % (w, f))
    for f, t in sorted(tab['changed'].items()):
        if f in flats or isinstance(t, tuple) and plain_with(ck, t[1]):
            continue
        op = isinstance(t, tuple) or opaque_in(t)
        ck.require(False, rule, w, 'altered ' + f, '%s: field %s does not hold the member as it was read but %s' % (w, f, str(t)[:300]),
                   'unmodelled: %s' % str(op)[:200] if op else None)


def plain_with(ck, name):
    """does every `deserialize_with` wrapper of the crate hand over what it deserialised?"""
    rs = [r for r in ck.ir.roots if r['name'] == 'deserialize' and 'impl_self' in r and '__DeserializeWith' in ck.ir.types[r['impl_self']]['s']]
    for r in rs:
        oks, _ = ck.split(ck.run_root(r, [P('de')]))
        for o, v in oks:
            x = v.a[2][0][1] if v.op == 'adt' and v.a[2] else v
            for k, t in ((v.a[2] if v.op == 'adt' else ())):
                if k == 'value':
                    x = t
            if not (x.op == 'fld' and x.a[1:] == ('Ok', '0') and x.a[0].op == 'app' and 'eserialize' in x.a[0].a[0].split('|')[0]):
                return False
    return bool(rs)


def defaults_ok(ck, rule, adt, w, tab, rows, flats, opt, spec=()):
    spec = dict(spec)
    for n, f, pol in rows:
        for t in sorted(tab['defaults'].get(f, ()), key=str):
            if f in flats:
                continue
            if f in spec:
                ok = isinstance(t, T) and is_str(t) and t.a[1].lower() == spec[f]
                ck.require(ok, rule, w, 'default ' + f, '%s: an absent %r is read as %s, expected %r' % (w, n, t, spec[f]),
                           None if not isinstance(t, T) or not opaque_in(t) else 'unmodelled default')
                continue
            ok = t == 'missing_field' or f in opt and isinstance(t, T) and t.op == 'adt' and t.a[1] == 'None'
            ck.require(ok, rule, w, 'default ' + f, '%s: an absent %r is read as %s' % (w, n, t),
                       'unmodelled default' if isinstance(t, T) and opaque_in(t) else None)
        if f in spec and not tab['defaults'].get(f):
            ck.violate(rule, w, 'default ' + f, '%s: an absent %r is not read as %r' % (w, n, spec[f]))
        elif f in spec and 'missing_field' in tab['defaults'][f]:
            ck.violate(rule, w, 'default ' + f, '%s: an absent %r is refused, expected to be read as %r' % (w, n, spec[f]))


def opt_fields(ck, adt, variant=None):
    return {f['n'] for v in ck.ir.adts[adt]['v'] if not variant or v['n'] == variant for f in v['f']
            if ck.ir.types[f['t']].get('p') == 'core::option::Option'}


@guard
def reads(ck, rule, adt, rows, flats=(), spec=()):
    w = vkey(adt, None)
    tab = de_struct(ck, adt)
    opt = opt_fields(ck, adt)
    reads_table(ck, rule, w, tab, rows, flats, opt)
    defaults_ok(ck, rule, adt, w, tab, rows, flats, opt, spec)


@guard
def tagged(ck, rule, adt, tag, variants, read=True):
    """variants: {tag string: (variant, rows)}"""
    for s, (v, rows) in variants.items():
        writes(ck, rule, adt, rows, variant=v, tag=(tag, s))
    if not read:
        return
    w = vkey(adt, None)
    t, got, left = de_tagged(ck, adt)
    ck.require(t == tag, rule, w, 'tag', '%s: the variant is chosen by member %r, expected %r' % (w, t, tag))
    for s, (v, rows) in variants.items():
        if s not in got:
            ck.violate(rule, w, 'tag ' + s, '%s: %r is not accepted as %s' % (w, s, tag))
            continue
        gv, tab = got[s]
        ck.require(gv == v, rule, w, 'tag ' + s, '%s: %r is read as %s, expected %s' % (w, s, gv, v))
        if rows:
            if tab is None:
                ck.violate(rule, w, 'members ' + s, '%s: members of %r are not read' % (w, s))
                continue
            opt = opt_fields(ck, adt, v)
            reads_table(ck, rule, vkey(adt, v), tab, rows, (), opt)
            defaults_ok(ck, rule, adt, vkey(adt, v), tab, rows, (), opt)
    return got


@guard
def strings(ck, rule, adt, table, read=True, exact=True):
    """fieldless enum written as a string: {variant: string}"""
    w = vkey(adt, None)
    got = {}
    uni = ck.universe(adt)
    for v in uni:
        for st, s in shapes(ck, rule, adt, v):
            if s[0] == 'str' and is_str(s[1]):
                got.setdefault(v, set()).add(s[1].a[1])
            elif s[0] == 'str' and opaque_in(s[1]):
                ck.undecided(rule, w, '%s written as %s' % (v, str(s[1])[:200]))
            else:
                ck.violate(rule, w, 'form ' + v, '%s::%s is not written as a fixed string but %s' % (w, v, str(s)[:200]))
    for v, s in table.items():
        if v in got:
            ck.require(got[v] == {s}, rule, w, 'write ' + v, '%s::%s is written as %s, expected %r' % (w, v, sorted(got[v]), s))
    if read:
        d = de_enum(ck, adt)
        for v, s in table.items():
            if v not in uni:
                continue
            ck.require(d.get(s, (None,))[0] == v, rule, w, 'read ' + v, '%s: %r is read as %s, expected %s' % (w, s, d.get(s, (None,))[0], v))
        if exact:
            for s, (v, _) in sorted(d.items()):
                ck.require(table.get(v) in (None, s), rule, w, 'other ' + s, '%s: also %r is read as %s' % (w, s, v))
        else:
            # other names may be read, but not another value's name in another spelling
            plain = lambda t: ''.join(c for c in t.lower() if c.isalnum())
            owner = {plain(n): u for u, n in table.items()}
            for s, (v, _) in sorted(d.items()):
                ck.require(owner.get(plain(s), v) == v, rule, w, 'other ' + s, '%s: %r is read as %s' % (w, s, v))
    return got


# ------------------------------------------------------------------ tables
FORMAT_ROWS = {
    'jwt_vc_json': ('JwtVcJson', [('types', 'types', 'r'), ('credentialSubject', 'credential_subject', 'omit'), ('order', 'order', 'omit')]),
    'jwt_vc_json-ld': ('JwtVcJsonLd', [('types', 'types', 'r'), ('credentialSubject', 'credential_subject', 'omit'), ('order', 'order', 'omit')]),
    'ldp_vc': ('LdpVc', [('@context', 'context', 'r'), ('types', 'types', 'r'), ('credentialSubject', 'credential_subject', 'omit'), ('order', 'order', 'omit')]),
    'mso_mdoc': ('MsoMdoc', [('doctype', 'doctype', 'r'), ('claims', 'claims', 'omit'), ('order', 'order', 'omit')]),
}


def untagged(ck, adt):
    """{variant: {payload kind}} of reading an untagged enum"""
    r = impl_root(ck, 'deserialize', 'Deserialize', adt)
    res, bad = {}, []
    oks, _ = ck.split(ck.run_root(r, [P('de')]))
    for o, v in oks:
        if v.op != 'adt' or o.st.unk:
            raise Unclear('reading of %s' % adt)
        x = v.a[2][0][1]
        k = 'other'
        if x.op == 'fld' and x.a[1:] == ('Ok', '0') and x.a[0].op == 'app' and 'deserialize' in x.a[0].a[0]:
            n = x.a[0].a[0]
            k = 'string' if 'string::String>::deserialize' in n.split('|')[0] else 'value'
        res.setdefault(v.a[1], set()).add(k)
        if k == 'other':
            bad.append((v.a[1], x))
    return res, bad


@guard
def string_or_object(ck, rule, adt, svar, ovar):
    """a string is written and read as svar's payload, anything else as ovar's"""
    w = vkey(adt, None)
    for v in (svar, ovar):
        for st, s in shapes(ck, rule, adt, v):
            f = fld(P('self'), v, '0')
            if v == svar:
                ok = s[0] in ('deleg', 'str') and val_is(ck, st, s[1], f)
                ck.require(ok, rule, w, 'form ' + v, '%s::%s is written as %s, expected the string itself' % (w, v, str(s)[:200]))
            elif s[0] == 'deleg':
                ck.require(val_is(ck, st, s[1], f), rule, w, 'form ' + v, '%s::%s is written as %s' % (w, v, str(s)[:200]))
            elif s[0] == 'obj':
                ok = all(f in subterms(t) or is_str(t) for _, t in s[1]) and not any(t == f for _, t in s[1])
                ck.require(ok, rule, w, 'form ' + v, '%s::%s is written inside another object: %s' % (w, v, str(s)[:300]))
            else:
                ck.violate(rule, w, 'form ' + v, '%s::%s is written as %s' % (w, v, str(s)[:200]))


@guard
def reads_string_or_object(ck, rule, adt, svar, ovar):
    w = vkey(adt, None)
    got, bad = untagged(ck, adt)
    ck.require('string' in got.get(svar, ()), rule, w, 'read string', '%s: a string is not read as %s (%s)' % (w, svar, {k: sorted(x) for k, x in got.items()}))
    ck.require('value' in got.get(ovar, ()), rule, w, 'read object', '%s: an object is not read as %s (%s)' % (w, ovar, {k: sorted(x) for k, x in got.items()}))
    for v, x in bad:
        op = [t for t in opaque_in(x) if 'eserialize' not in t.a[0]]
        ck.require(False, rule, w, 'altered ' + v, '%s::%s holds %s, not what was read' % (w, v, str(x)[:300]), 'unmodelled' if op else None)


@guard
def deleg(ck, rule, adt, field='0', what='list'):
    w = vkey(adt, None)
    for st, s in shapes(ck, rule, adt):
        ck.require(s[0] == 'deleg' and val_is(ck, st, s[1], F(P('self'), field)), rule, w, 'form',
                   '%s is written as %s, expected exactly its %s' % (w, str(s)[:200], what))


def profile_objects(ck, rule, read=True):
    tagged(ck, rule, 'credential::CredentialFormatProfile', 'format', FORMAT_ROWS, read=read)


SUBJECT = [('mandatory', 'mandatory', 'omit'), ('value_type', 'value_type', 'omit'), ('display', 'display', 'omit')]
SUBJECT_DISPLAY = [('name', 'name', 'omit'), ('locale', 'locale', 'omit')]


# ------------------------------------------------------------------ C30
GRANTS = [('authorization_code', 'authorized_code_flow', 'omit'), (PRE, 'pre_authorized_code_flow', 'omit')]
PRE_ROWS = [('pre-authorized_code', 'code', 'r'), ('user_pin_required', 'user_pin_required', 'omit')]
AUTH_ROWS = [('issuer_state', 'issuer_state', 'opt')]
OFFER = [('credential_issuer', 'credential_issuer', 'r'), ('credentials', 'credentials', 'r'), ('grants', 'grants', 'r')]


def c30(ck):
    for adt, rows in (('credential_issuer::CredentialOffer', OFFER), ('CredentialOfferGrants', GRANTS),
                      ('credential_issuer::AuthorizedCodeFlow', AUTH_ROWS), ('credential_issuer::PreAuthorizedCodeFlow', PRE_ROWS)):
        writes(ck, 'offer.written', adt, rows, exact=True)
        reads(ck, 'offer.read', adt, rows)
    deleg(ck, 'offer.written', 'CredentialOrIds')
    string_or_object(ck, 'offer.written', 'CredentialOrId', 'CredentialId', 'Credential')
    reads_string_or_object(ck, 'offer.read', 'CredentialOrId', 'CredentialId', 'Credential')
    ck.floor(len(ck.obl), 40, 'offer tables')


# ------------------------------------------------------------------ C31
ATE = dict(InvalidRequest='invalid_request', InvalidGrant='invalid_grant', InvalidClient='invalid_client', AccessDenied='access_denied',
           UnsupportedResponseType='unsupported_response_type', InvalidScope='invalid_scope', ServerError='server_error',
           TemporarilyUnavailable='temporarily_unavailable')
CIE = dict(InvalidRequest='invalid_request', InvalidToken='invalid_token', UnsupportedCredentialType='unsupported_credential_type',
           UnsupportedCredentialFormat='unsupported_credential_format', InvalidOrMissingProof='invalid_or_missing_proof')


def to_text(ck, rule, adt, table):
    p = ck.adt(adt)
    w = '<&str as From<%s>>' % adt
    uni = ck.universe(adt)
    rs = [r for r in ck.ir.roots if r['name'] == 'from' and r.get('impl_trait', '').endswith('From') and 'impl_self' in r
          and ck.ir.types[ck.ir.peel(r['impl_self'])]['s'] in ('str', 'std::string::String')
          and ck.ir.types[ck.ir.peel(ck.ir.bodies[r['id']]['locals'][1]['t'] if isinstance(ck.ir.bodies[r['id']]['locals'][1], dict) else ck.ir.bodies[r['id']]['locals'][1])].get('p') == p]
    if not rs:
        ck.undecided(rule, w, 'conversion not found')
    got = {}
    for r in rs:
        for o in ck.run_root(r, [P('v')]):
            if o.kind != 'ret':
                continue
            for v in uni:
                if not feasible(o.st, isvar(P('v'), v, uni)):
                    continue
                if is_str(o.val):
                    got.setdefault(v, set()).add(o.val.a[1])
                elif opaque_in(o.val) or o.st.unk:
                    ck.undecided(rule, w, 'text of %s: %s' % (v, str(o.val)[:200]))
                else:
                    ck.violate(rule, w, 'form ' + v, 'text of %s is %s' % (v, str(o.val)[:200]))
    for v, s in table.items():
        if v in got:
            ck.require(got[v] == {s}, rule, w, 'text ' + v, '%s::%s converts to %s, expected %r' % (adt, v, sorted(got[v]), s))
    return got


def from_text(ck, rule, adt, table):
    p = ck.adt(adt)
    uni = ck.universe(adt)
    for r in [r for r in ck.ir.roots if r['name'] in ('try_from', 'from_str') and r.get('impl_trait', '').split('::')[-1].split('<')[0] in ('TryFrom', 'FromStr')
              and 'impl_self' in r and ck.ir.types[r['impl_self']].get('p') == p]:
        w = '<%s as %s>::%s' % (adt, r['impl_trait'].split('::')[-1], r['name'])
        oks, errs = ck.split(ck.run_root(r, [P('v')]))
        for o, v in oks:
            if v.op != 'adt':
                ck.undecided(rule, w, 'accepts as %s' % str(v)[:200])
                continue
            s = table.get(v.a[1])
            if s is not None:
                ck.must(o, eq(P('v'), Str(s)), rule, w, 'accept ' + v.a[1], '%s accepts as %s a string other than %r' % (w, v.a[1], s), extra=[P('v')])
        for v, s in table.items():
            if v not in uni:
                continue
            hit = [x for o, x in oks if feasible(o.st, eq(P('v'), Str(s)))]
            ck.require(bool(hit) and all(x.op == 'adt' and x.a[1] == v for x in hit), rule, w, 'parse ' + v,
                       '%s: %r is read as %s, expected %s' % (w, s, [str(x)[:60] for x in hit], v), 'unmodelled' if ck.undec else None)
            for o, x in errs:
                if feasible(o.st, eq(P('v'), Str(s))):
                    ck.must(o, ~eq(P('v'), Str(s)), rule, w, 'refuse ' + v, '%s may refuse %r' % (w, s))
        ck.ok(rule, w, '%d accepting, %d refusing exits' % (len(oks), len(errs)))


def c31(ck):
    for adt, table in (('AccessTokenErrorCode', ATE), ('CredentialIssuerErrorCode', CIE)):
        if ck.adt(adt) is None:
            ck.undecided('code', adt, 'type not found')
            continue
        a = strings(ck, 'code.json', adt, table) or {}
        b = to_text(ck, 'code.text', adt, table)
        for v in ck.universe(adt):
            if v not in table and len(a.get(v, ())) == 1:
                # a code added later: one string, in both directions
                table = dict(table, **{v: list(a[v])[0]})
                ck.require(b.get(v, a[v]) == a[v], 'code.text', adt, 'text ' + v, '%s is %s in JSON and %s as text' % (v, a[v], b.get(v)))
        from_text(ck, 'code.parse', adt, table)
        strings(ck, 'code.json', adt, table)
        vals = list(table[v] for v in ck.universe(adt) if v in table)
        ck.require(len(vals) == len(set(vals)), 'code.distinct', adt, 'shared', 'two codes share a string: %s' % sorted(vals))
    strings(ck, 'token_type', 'AccessTokenType', {'Bearer': 'Bearer'})
    ck.floor(len(ck.obl), 60, 'error code tables')


# ------------------------------------------------------------------ C32
def c32(ck):
    adt = ck.adt('credential::CredentialFormatProfile')
    if adt is None:
        ck.undecided('format', 'CredentialFormatProfile', 'type not found')
        return
    got = tagged(ck, 'format.profile', 'credential::CredentialFormatProfile', 'format', {s: (v, []) for s, (v, _) in FORMAT_ROWS.items()}) or {}
    for s, (v, _) in sorted(got.items()):
        if v in FORMATS:
            ck.require(FORMATS[v] == s, 'format.profile', 'CredentialFormatProfile', 'other ' + s, 'also %r is read as %s' % (s, v))
    uni = ck.universe(adt)
    r = ck.find('CredentialFormatProfile::get_format_name')
    if r is not None:
        for o in ck.run_root(r, [P('self')]):
            if o.kind != 'ret':
                continue
            for v in uni:
                if v in FORMATS and feasible(o.st, isvar(P('self'), v, uni)):
                    ck.value(o, o.val, Str(FORMATS[v]), 'format.name', 'get_format_name', v, 'name of %s' % v)
    # the format of credential responses
    w = 'CredentialIssuer::create_credential_success_response'
    req = P('request')
    oks, _ = ck.split(ck.run(w, req, 'credential', 'nonce'))
    for o, v in oks:
        issuer.format_of_request(ck, o, w, F(fld(v, '', '0'), 'format'), F(req, 'format'), FORMATS)
    ck.floor(len(oks), 4, 'building exits of ' + w)
    ck.floor(len(ck.obl), 16, 'format tables')


# ------------------------------------------------------------------ C33
def encoded_as(ck, o, w, x, v, uni):
    """x: what is put into the response for credential v; returns the formats possible on this path"""
    js = App('json_ser', v)
    enc = App('b64enc', Str('url-safe,unpadded,RequireNone,strict'), fld(js, 'Ok', '0'))
    k = o.st.variant(x)
    poss = [var for var in uni if feasible(o.st, isvar(v, var, uni))]
    for var in poss:
        want = 'CredentialFormatProfile' if var == 'LdpVc' else 'Encoded'
        if var not in FORMATS:
            continue
        ck.require(k == want, 'encode.form', w, var, 'a %s credential is issued as %s' % (FORMATS[var], str(x)[:200]),
                   'unmodelled' if o.st.unk or k is None or opaque_in(x) else None)
        if k == want:
            ck.value(o, fld(x, k, '0'), v if var == 'LdpVc' else enc, 'encode.value', w, var, 'credential as issued')
    return poss


def c33(ck):
    w = 'CredentialFormatProfileOrEncoded::try_from'
    outs = ck.run_trait('TryFrom', 'CredentialFormatProfileOrEncoded', 'try_from', ['value'], tparam='CredentialFormatProfile', optional=True) or []
    uni = ck.universe('credential::CredentialFormatProfile')
    oks, errs = ck.split(outs)
    v = P('value')
    seen = set()
    for o, x in oks:
        seen.update(encoded_as(ck, o, w, x, v, uni))
    for o, e in errs:
        ck.must(o, errv(App('json_ser', v)), 'encode.total', w, 'refused', 'a credential is refused although its JSON can be written')
    for var in FORMATS:
        if outs and var not in seen:
            ck.violate('encode.form', w, 'refused ' + var, 'no %s credential is ever encoded' % var)
    # as it reaches the response
    w = 'CredentialIssuer::create_credential_success_response'
    what = P('credential')
    c = fld(S0(what), 'Credential', '0')
    seen = set()
    for o, r in ck.split(ck.run(w, 'request', what, 'nonce'))[0]:
        for s, kk, k2 in issuer.what_cases(o.st, what):
            if kk == 'Some' and k2 == 'Credential':
                cred = F(fld(r, '', '0'), 'credential')
                if s.variant(cred) == 'Some':
                    seen.update(encoded_as(ck, Out('ret', s, r), w, S0(cred), c, uni))
                else:
                    ck.require(False, 'encode.form', w, 'absent', 'credential of the response: %s' % str(cred)[:200], ck.taint(s, [what]))
    for var in FORMATS:
        if seen and var not in seen:
            ck.violate('encode.form', w, 'refused ' + var, 'no %s credential reaches a response' % var)
    # what the two forms look like on the wire
    string_or_object(ck, 'encode.wire', 'CredentialFormatProfileOrEncoded', 'Encoded', 'CredentialFormatProfile')
    for t, (var, rows) in FORMAT_ROWS.items():
        same_object(ck, 'encode.wire', var)
    writes(ck, 'encode.response', 'CredentialSuccessResponse', [('credential', 'credential', 'opt')])
    ck.floor(len(ck.obl), 20, 'encodings')


def same_object(ck, rule, var):
    """a credential embedded in a response is written exactly as the credential alone"""
    a, b = ck.adt('CredentialFormatProfileOrEncoded'), ck.adt('credential::CredentialFormatProfile')
    try:
        x = P('x')
        own = {frozenset((n, t) for n, t in s[1]) for st, s in ser_shapes(ck, b, self_=x) if s[0] == 'obj' and st.variant(x) == var}
        sh = [(st, s) for st, s in ser_shapes(ck, a) if st.variant(P('self')) == 'CredentialFormatProfile']
        f = fld(P('self'), 'CredentialFormatProfile', '0')
        for st, s in sh:
            if s[0] == 'deleg' and s[1] == f:
                ck.ok(rule, var, 'delegates')
                continue
            if s[0] == 'obj' and st.variant(f) == var:
                got = frozenset((n, subst(t, f, x)) for n, t in s[1])
                ck.require(got in own, rule, 'embedded ' + var, 'members', 'embedded in a response, %s is written as %s' % (var, str(s[1])[:300]))
    except Unclear as e:
        ck.undecided(rule, var, str(e))


def subst(t, a, b):
    if t == a:
        return b
    return T(t.op, *[subst(x, a, b) if isinstance(x, T) else x for x in t.a]) if t.op in ('fld',) else t


# ------------------------------------------------------------------ C34
GRANT_TYPES = {'authorization_code': ('AuthorizedCodeFlow', []),
               PRE: ('PreAuthorizedCodeFlow', [('pre-authorized_code', 'pre_authorized_code', 'r'), ('user_pin', 'user_pin', 'opt')])}


def c34(ck):
    got = tagged(ck, 'token_request', 'access_token::GrantType', 'grant_type', GRANT_TYPES) or {}
    for s, (v, _) in sorted(got.items()):
        if v in ('AuthorizedCodeFlow', 'PreAuthorizedCodeFlow'):
            ck.require(s in GRANT_TYPES, 'token_request', 'GrantType', 'other ' + s, 'grant_type %r is accepted, which no offer announces' % s)
    writes(ck, 'token_request', 'AccessTokenRequest', [], flats=['grant_type'])
    reads(ck, 'token_request', 'AccessTokenRequest', [], flats=['grant_type'])
    # the offer side, as written
    writes(ck, 'offer.grants', 'CredentialOfferGrants', GRANTS)
    writes(ck, 'offer.code', 'credential_issuer::PreAuthorizedCodeFlow', [('pre-authorized_code', 'code', 'r')])
    ck.floor(len(ck.obl), 20, 'grant tables')


# ------------------------------------------------------------------ C35
ALGS = {a: a for a in ('HS256', 'HS384', 'HS512', 'RS256', 'RS384', 'RS512', 'ES256', 'ES384', 'ES512', 'PS256', 'PS384', 'PS512', 'EdDSA', 'ES256K')}
ALGS.update(ECDHES='ECDH-ES', None_='none')
ALGS['None'] = ALGS.pop('None_')
BODY = [('iss', 'issuer', 'omit'), ('aud', 'audience', 'r'), ('sub', 'subject', 'opt'), ('iat', 'issued_at', 'r'), ('nonce', 'nonce', 'r'),
        ('nbf', 'not_before', 'omit'), ('exp', 'expires_at', 'omit')]
HEAD = [('typ', 'typ', 'r'), ('alg', 'alg', 'r')]
KEYS = {'kid': 'KeyId', 'jwk': 'Jwk', 'x5c': 'X5c'}


def c35(ck):
    writes(ck, 'proof.claims', 'ProofJwtBody', BODY, exact=True)
    reads(ck, 'proof.claims', 'ProofJwtBody', BODY)
    writes(ck, 'proof.header', 'ProofJwtHeader', HEAD, flats=['additional_header'], exact=True)
    reads(ck, 'proof.header', 'ProofJwtHeader', HEAD, flats=['additional_header'])
    strings(ck, 'proof.alg', 'ProofJwtAlgorithm', ALGS, exact=False)
    additional(ck, 'proof.key', 'ProofJwtAdditionalHeader')
    ck.floor(len(ck.obl), 60, 'proof tables')


@guard
def additional(ck, rule, adt):
    w = vkey(adt, None)
    for n, v in KEYS.items():
        for st, s in shapes(ck, rule, adt, v):
            ok = s[0] == 'obj' and [x for x, _ in s[1]] == [n] and val_is(ck, st, s[1][0][1], fld(P('self'), v, '0'))
            ck.require(ok, rule, w, 'write ' + v, '%s::%s is written as %s, expected member %r' % (w, v, str(s)[:200], n))
    d = de_enum(ck, adt)
    for n, v in KEYS.items():
        ck.require(d.get(n, (None,))[0] == v, rule, w, 'read ' + v, '%s: %r is read as %s, expected %s' % (w, n, d.get(n, (None,))[0], v))


# ------------------------------------------------------------------ C36
MD = [(n, n, 'r' if n in ('credential_issuer', 'credential_endpoint', 'credentials_supported') else 'opt') for n in
      ('credential_issuer', 'authorization_server', 'credential_endpoint', 'batch_credential_endpoint', 'credentials_supported')]
SUP = [('id', 'id', 'opt'), ('cryptographic_binding_methods_supported', 'cryptographic_binding_mehtods_supported', 'opt'),
       ('cryptographic_suites_supported', 'cryptographic_suites_supported', 'opt'), ('display', 'display', 'opt')]
DISP = [('name', 'name', 'r')] + [(n, n, 'opt') for n in ('locale', 'logo', 'description', 'background_color', 'text_color')]
LOGO = [(n, n, 'opt') for n in ('url', 'alt_text')]


def c36(ck):
    writes(ck, 'metadata', 'CredentialIssuerMetadata', MD, flats=['additional_fields'])
    reads(ck, 'metadata', 'CredentialIssuerMetadata', MD, flats=['additional_fields'])
    writes(ck, 'metadata.supported', 'CredentialSupported', SUP, flats=['format'])
    reads(ck, 'metadata.supported', 'CredentialSupported', SUP, flats=['format'])
    for adt, rows in (('DisplayProperties', DISP), ('DisplayLogo', LOGO), ('credential::CredentialSubject', SUBJECT), ('CredentialSubjectDisplay', SUBJECT_DISPLAY)):
        writes(ck, 'metadata.parts', adt, rows)
        reads(ck, 'metadata.parts', adt, rows)
    profile_objects(ck, 'metadata.profile')
    string_or_object(ck, 'metadata.context', 'LinkedDataContext', 'String', 'Map')
    reads_string_or_object(ck, 'metadata.context', 'LinkedDataContext', 'String', 'Map')
    ck.floor(len(ck.obl), 80, 'metadata tables')


# ------------------------------------------------------------------ C37
def c37(ck):
    tr = [('access_token', 'access_token', 'r'), ('token_type', 'token_type', 'r')] + \
         [(n, n, 'opt') for n in ('expires_in', 'scope', 'c_nonce', 'c_nonce_expires_in', 'authorization_pending', 'interval')]
    writes(ck, 'token_response', 'AccessTokenSuccessResponse', tr)
    reads(ck, 'token_response', 'AccessTokenSuccessResponse', tr)
    cr = [('format', 'format', 'r')] + [(n, n, 'opt') for n in ('credential', 'acceptance_token', 'c_nonce', 'c_nonce_expires_in')]
    writes(ck, 'credential_response', 'CredentialSuccessResponse', cr)
    reads(ck, 'credential_response', 'CredentialSuccessResponse', cr)
    er = [('error', 'error', 'r'), ('error_description', 'error_description', 'opt'), ('error_uri', 'error_uri', 'opt')]
    writes(ck, 'error_response', 'error_response::ErrorResponse', er, flats=['error_additional_details'])
    rq = [('proof', 'proof', 'opt')]
    writes(ck, 'credential_request', 'CredentialRequest', rq, flats=['format'])
    reads(ck, 'credential_request', 'CredentialRequest', rq, flats=['format'])
    pr = [('proof_type', 'proof_type', 'r'), ('jwt', 'jwt', 'r')]
    writes(ck, 'credential_request.proof', 'CredentialRequestProof', pr)
    reads(ck, 'credential_request.proof', 'CredentialRequestProof', pr, spec=[('proof_type', 'jwt')])
    profile_objects(ck, 'credential_request.profile')
    ck.floor(len(ck.obl), 80, 'message tables')


RULES = dict(C30=c30, C31=c31, C32=c32, C33=c33, C34=c34, C35=c35, C36=c36, C37=c37)
