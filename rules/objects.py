"""C43 result objects and options on the wire, C44 the access token type, C45 unsafe code, C46 details of errors."""
from wirelib import *
from wire import writes, reads, strings, to_text, from_text, guard, shapes
from effects import entry_points, local_bodies, calls
import misc


# ------------------------------------------------------------------ C45
ERRORS = tuple(misc.CODES)
ALLOWED_CALLS = ('core::fmt::Arguments::', 'core::fmt::rt::')          # inserted by the formatting macros
UB_MODELS = ('from_utf8_unchecked', 'unwrap_unchecked', 'unwrap_err_unchecked', 'unreachable_unchecked', 'get_unchecked')


def raw_reads(ir, b):
    """types of the locals of body b that are raw pointers and dereferenced"""
    for blk in b['blocks']:
        for x in walk_places(blk):
            t = ir.types[b['locals'][x[0]]]
            if t['k'] == 'ptr' and x[1] and x[1][0] == ['*']:
                yield t


def walk_places(x):
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(e, list) and e and isinstance(e[0], str) for e in x[1]):
            yield x
        for y in x:
            yield from walk_places(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from walk_places(y)


def c45(ck):
    ir = ck.ir
    nb = nu = 0
    for i, b in local_bodies(ir):
        nb += 1
        for t in calls(b):
            f = t[1]
            p = f.get('path') or ''
            if not f.get('unsafe') or p.startswith(ALLOWED_CALLS):
                continue
            nu += 1
            if p.split('::')[-1] in UB_MODELS:
                ck.ok('unsafe.call', b['path'], '%s, examined on every path below' % p)
            else:
                ck.undecided('unsafe.call', b['path'], 'unsafe function %s (%s)' % (p, t[-1]))
        if not b.get('unsafe'):
            continue
        nu += 1
        rs = list(raw_reads(ir, b))
        for t in rs:
            to = ir.types[t['a'][0]]
            ck.require(to['k'] == 'int', 'unsafe.read', b['path'], 'kind', '%s reads memory as %s' % (b['path'], to['s']), 'reinterpretation not understood')
        ck.ok('unsafe.block', b['path'], '%d raw reads' % len(rs))
    for x in ir.impls:
        if x.get('unsafe'):
            ck.undecided('unsafe.impl', x['self'], 'unsafe impl %s' % x['full'])
    # what the reads hit, and the unchecked operations, on every path from a public function
    n = 0
    for r in entry_points(ir):
        b = ir.bodies[r['id']]
        n += 1
        bad = False
        for o in ck.run_root(r, [P('a%d' % i) for i in range(b['argc'])]):
            if o.kind == 'panic':
                v = o.val
                if isinstance(v, tuple) and v[0] == 'undefined behaviour':
                    bad = True
                    op = {x for t in fact_terms(o.st) for x in opaque_in(t)} if o.st.unk else None
                    ck.require(False, 'undefined', r['path'], v[1], 'reaches undefined behaviour (%s at %s) when: %s' % (v[1], v[2] if len(v) > 2 else '?', show_facts(o.st)),
                               'path decided by unmodelled functions' if op else None)
                continue
            ts = ([o.val] if isinstance(o.val, T) else []) + list(fact_terms(o.st))
            for t in ts:
                for x in subterms(t):
                    if x.op == 'app' and x.a[0] == 'garbage_read':
                        bad = True
                        ck.violate('undefined', r['path'], 'layout', 'reads %s through a pointer of another type although its layout does not define what is there (no matching #[repr])' % x.a[1])
        if not bad:
            ck.ok('undefined', r['path'])
    # the error enums whose first word is read
    for e in ERRORS:
        p = ck.adt(e)
        if p is None:
            ck.undecided('anchor', e, 'type not found')
    ck.floor(nb, 300, 'functions of the crate')
    ck.floor(n, 400, 'entry points')
    ck.ok('unsafe.count', 'crate', '%d unsafe blocks and calls' % nu)


# ------------------------------------------------------------------ C44
TYPE = {'Bearer': 'Bearer'}


def c44(ck):
    adt = 'token_type::AccessTokenType'
    strings(ck, 'type.json', adt, TYPE)
    to_text(ck, 'type.text', adt, TYPE)
    from_text(ck, 'type.parse', adt, TYPE)
    ck.floor(len(ck.obl), 5, 'token type tables')


# ------------------------------------------------------------------ C43
OBJECTS = {
    'return_object::ReturnObject': ([(n, n, 'omit') for n in ('info', 'error', 'warnings')], False),
    'error::ErrorInformation': ([(n, n, 'r') for n in ('code', 'name', 'description')] + [('additional_information', 'additional_information', 'omit')], False),
    'PreEvaluateCredentialRequestResponse': ([('did', 'did', 'omit')], False),
    'CredentialIssuerEvaluateRequestResponse': ([('proof_of_possession', 'proof_of_possession', 'opt'), ('subject_id', 'subject_id', 'opt'), ('credential', 'credential', 'r')], False),
    'ProofOfPossession': ([(n, n, 'r') for n in ('algorithm', 'public_key', 'message', 'signature')], False),
    'CNonce': ([('c_nonce', 'c_nonce', 'r'), ('c_nonce_expires_in', 'c_nonce_expires_in', 'opt')], True),
    'EvaluateCredentialRequestOptions': ([('c_nonce', 'c_nonce', 'opt'), ('client_id', 'client_id', 'opt')], True),
    'CNonceOptions': ([(n, n, 'r') for n in ('c_nonce_expires_in', 'expected_c_nonce', 'c_nonce_created_at')], True),
    'EvaluateAccessTokenRequestOptions': ([('expected_user_pin', 'expected_user_pin', 'opt')], True),
    'jwt::ProofJwt': ([('header', 'header', 'r'), ('body', 'body', 'r'), ('signature', 'signature', 'opt')], True),
}


def c43(ck):
    for adt, (rows, rd) in OBJECTS.items():
        writes(ck, 'object', adt, rows, exact=True)
        if rd:
            reads(ck, 'object', adt, rows)
    display(ck)
    ck.floor(len(ck.obl), 60, 'object tables')


def display(ck):
    """text of an ErrorInformation is its JSON"""
    w = '<ErrorInformation as Display>::fmt'
    adt = ck.adt('error::ErrorInformation')
    r = impl_root(ck, 'fmt', 'Display', adt) if adt else None
    if r is None:
        ck.undecided('object.text', w, 'not found')
        return
    f = P('f')
    s = P('self')
    js = App('json_ser', s)
    n = 0
    for o in ck.run_root(r, [s, f]):
        if o.kind != 'ret':
            continue
        text, op = [], bool(o.st.unk)
        for e in o.st.log:
            if 'Formatter' not in e[0]:
                continue
            if e[0].endswith(('::write_fmt', '::write_str', '::pad')):
                t = e[2][1]
                text.append(t.a[0] if t.op == 'fargs' else t)
            else:
                op = True
        got = cat(text) if text else None
        if o.st.variant(js) == 'Err':
            continue
        n += 1
        k = got is not None and (got == fld(js, 'Ok', '0') or got == App('display', js))
        ck.require(k, 'object.text', w, 'text', 'the text of an ErrorInformation is %s, expected its JSON' % str(got)[:300],
                   'unmodelled' if op or got is None or opaque_in(got) else None)
    ck.floor(n, 1, 'exits of ' + w)


# ------------------------------------------------------------------ C46
DETAILS = {
    'validate::ValidationError': {'Any': ['validation_message']},
    'access_token::error::AccessTokenError': {
        'InvalidGrantType': ['requested_grant_type', 'accepted_grant_type'],
        'InvalidPreAuthorizedCodeFlowValues': ['should_pin_be_supplied', 'does_code_match'],
        'InvalidAuthorizedAndPreAuthorizedCodeFlow': ['authorized_error', 'pre_authorized_error'],
        'OptionsAreRequiredForEvaluation': ['reason']},
    'jwt::error::JwtError': {
        'NotYetValid': ['valid_from', 'now'], 'NotValidAnymore': ['valid_until', 'now'],
        'IssuerMismatch': ['expected_iss_in_jwt', 'actual_iss_in_jwt'], 'UnableToTransformIntoDid': ['kid', 'message'],
        'UnableToResolveDidInDidDocument': ['did', 'message'], 'UnableToTransformIntoJoseItem': ['original_string', 'serde_message'],
        'UnsupportedAlgorithm': ['algorithm'], 'ESXXXHasNoXOrYCoordinate': ['algorithm', 'x', 'y'], 'SignatureNotInJwt': ['jwt'],
        'UnsupportedKeyTypeInJwtHeader': ['key_name', 'key_type'], 'NonceMismatch': ['expected_nonce', 'actual_nonce'],
        'AudienceMismatch': ['expected_aud_in_jwt', 'actual_aud_in_jwt']},
    'credential_issuer::error::CredentialIssuerError': {
        'CredentialIdNotInIssuerMetadata': ['id'], 'InvalidCredentialOfferEncoding': ['error_message'],
        'InvalidRequestedCredential': ['requested_credential', 'supported_formats'], 'ExpiredCNonce': ['now', 'expires_in'],
        'EvaluteCredentialRequestOptionsNotSupplied': ['reason'], 'CNonceIsExpired': ['now', 'expiry_timestamp']},
}


# operations that keep only part of a text
PARTIAL = {'seg', 'rest', 'rseg', 'substr', 'len', 'nseg', 'chars_count', 'digits', 'starts_with', 'ends_with', 'before', 'after'}


def carried(t, x, cut=False):
    """x, or a text made of all of it, is part of t: not just a piece of its text; the place and the cause of an error together are all of it"""
    if carried1(t, x, cut):
        return True
    return not cut and all(carried1(t, App(h, x), False) for h in HALVES)


HALVES = ('error_inner', 'error_path')


def carried1(t, x, cut=False):
    if t is x:
        return not cut
    if not isinstance(t, T):
        return isinstance(t, tuple) and any(carried1(y, x, cut) for y in t)
    if t.op in ('slice', 'at', 'k') or t.op == 'app' and (t.a[0] in PARTIAL or t.a[0] in HALVES and t is not x):
        cut = True
    return any(carried1(y, x, cut) for y in t.a if isinstance(y, (T, tuple)))


def c46(ck):
    ir = ck.ir
    errs = {ck.adt(e): e for e in DETAILS}
    # the members of the details, and wrapped errors as themselves
    for adt, vs in DETAILS.items():
        p = ck.adt(adt)
        if p is None:
            ck.undecided('details.json', adt, 'type not found')
            continue
        fields = {v['n']: [f['n'] for f in v['f']] for v in ir.adts[p]['v']}
        for v, ms in vs.items():
            if v in fields and all(m in fields[v] for m in ms):
                opt = {f['n'] for w in ir.adts[p]['v'] if w['n'] == v for f in w['f'] if ir.types[f['t']].get('p') == 'core::option::Option'}
                writes(ck, 'details.json', adt, [(m, m, 'opt' if m in opt else 'r') for m in ms], variant=v)
            else:
                ck.undecided('details.json', '%s::%s' % (adt, v), 'fields %s' % fields.get(v))
        wrapped(ck, 'details.json', p, [v for v in fields if fields[v] == ['0']])
    # conversions between errors keep what they are given
    for r in ir.roots:
        if r['name'] != 'from' or not r.get('impl_trait', '').endswith('From') or ir.types[r['impl_self']].get('p') not in errs:
            continue
        b = ir.bodies[r['id']]
        at = ir.types[b['locals'][1]]
        x = P('e')
        for o in ck.run_root(r, [x]):
            if o.kind != 'ret':
                continue
            v = o.val
            if at.get('p') in errs:
                ok = v.op == 'adt' and len(v.a[2]) == 1 and v.a[2][0][1] == x
                what = 'the error itself'
            else:
                ok = carried(v, x)
                what = 'its text'
            ck.require(ok, 'details.convert', r['path'], 'lost', 'an error of type %s becomes %s, which does not hold %s' % (at['s'], str(v)[:300], what),
                       'unmodelled' if opaque_in(v) or o.st.unk else None)
    # every refusal caused by a failed operation tells how it failed
    n = 0
    for r in ir.roots:
        b = ir.bodies[r['id']]
        rt = ir.types[b['locals'][0]]
        if r['derived'] or not r['reachable'] or rt.get('p') != RESULT or ir.types[rt['a'][1]].get('p') not in errs:
            continue
        for o, e in ck.split(ck.run_root(r, [P('a%d' % i) for i in range(b['argc'])]))[1]:
            failed = [f[1] for f in o.st.facts() if f[0] == 'var' and f[2] == 'Err' and f[1].op == 'app']
            failed = [t for t in failed if not is_opaque(t) or t.a[0].startswith('json_de')]
            if not failed:
                continue
            n += 1
            ok = any(carried(e, fld(t, 'Err', '0')) for t in failed)
            ck.require(ok, 'details.cause', r['path'], '%s %s' % (failed[0].a[0].split('|')[0], err_name(leaf_err(e)[0])),
                       'refuses because %s, but reports %s, which does not tell the failure' % (' / '.join(str(t)[:200] for t in failed), str(e)[:300]),
                       'unmodelled' if opaque_in(e) or o.st.unk else None)
            if ok:
                ck.ok('details.cause', r['path'])
    ck.floor(n, 20, 'refusals caused by a failed operation')
    values(ck)


@guard
def wrapped(ck, rule, adt, vs):
    """the details of an error that wraps another one are those of the wrapped one"""
    for v in vs:
        w = '%s::%s' % (adt.split('::')[-1], v)
        f = fld(P('self'), v, '0')
        for st, s in shapes(ck, rule, adt, v):
            if s[0] == 'obj':
                ok = not s[2] and all(t != f and f in set(subterms(t)) for _, t in s[1])
            else:
                ok = s[0] == 'null' or s[0] in ('deleg', 'str') and isinstance(s[1], T) and f in set(subterms(s[1]))
            ck.require(ok, rule, w, 'wrapped', 'the details of a wrapped error are written as %s' % str(s)[:300],
                       'unmodelled' if st.unk else None)


def values(ck):
    """the values named in the details of proof-key errors are those of the token"""
    own = P('self')
    for w, doc in (('ProofJwt::extract_did', False), ('ProofJwt::extract_key_and_alg', True), ('ProofJwtHeader::extract_key_and_alg', True)):
        add = F(F(own, 'header'), 'additional_header') if 'ProofJwt::' in w else F(own, 'additional_header')
        k = S0(add)
        kid, jwk, x5c = (fld(k, n, '0') for n in ('KeyId', 'Jwk', 'X5c'))
        url = App('didurl', kid)
        outs = ck.run(w, 'self', 'doc') if doc else ck.run(w, 'self')
        for o, e in ck.split(outs)[1]:
            v, _ = leaf_err(e)
            if v.op != 'adt':
                continue
            d = dict(v.a[2])
            n = v.a[1]

            def field(f, *want):
                if f not in d:
                    return
                got = d[f]
                ck.require(any(same(o.st, got, x) for x in want), 'details.value', w, '%s.%s' % (n, f), '%s of %s is %s, expected %s' % (f, n, str(got)[:200], str(want[0])[:200]),
                           'unmodelled' if opaque_in(got) - opaque_in(want[0]) or o.st.unk else None)
            if n == 'UnableToTransformIntoDid':
                field('kid', kid)
            elif n == 'UnableToResolveDidInDidDocument':
                field('did', App('display', fld(url, 'Ok', '0')), kid)
            elif n == 'UnableToTransformIntoJoseItem':
                field('original_string', jwk)
            elif n == 'UnsupportedKeyTypeInJwtHeader':
                kk = o.st.variant(k)
                if kk in ('Jwk', 'X5c'):
                    field('key_name', Str(kk.lower()))
                    field('key_type', jwk if kk == 'Jwk' else x5c)
            elif n == 'UnsupportedAlgorithm':
                ck.require(not is_str(d.get('algorithm', UNIT)), 'details.value', w, n, 'the algorithm reported is the constant %s' % str(d.get('algorithm'))[:100])
    w = 'ProofJwt::extract_signature'
    h, b, s = (F(own, x) for x in ('header', 'body', 'signature'))
    for o, e in ck.split(ck.run(w, 'self'))[1]:
        v, _ = leaf_err(e)
        if v.op == 'adt' and v.a[1] == 'SignatureNotInJwt':
            got = dict(v.a[2]).get('jwt')
            want = cat([fld(App('json_ser', h), 'Ok', '0'), Str('.'), fld(App('json_ser', b), 'Ok', '0')])
            ck.require(got is not None and same(o.st, got, want), 'details.value', w, 'SignatureNotInJwt.jwt', 'jwt of SignatureNotInJwt is %s, expected the compact form of the token' % str(got)[:300],
                       'unmodelled' if got is None or opaque_in(got) or o.st.unk else None)


RULES = dict(C43=c43, C44=c44, C45=c45, C46=c46)
