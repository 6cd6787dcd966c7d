"""C25 error codes, C26 return objects, C39 base64url."""
from wirelib import *

B64 = 'url-safe,unpadded,RequireNone,strict'
CODES = {
    'validate::ValidationError': {'Any': 1},
    'access_token::error::AccessTokenError': dict(
        ValidationError=400, InvalidGrantType=401, AuthorizedFlowNotSupported=402, NoFlowSupportedInCredentialOffer=403,
        InvalidPreAuthorizedCodeFlowValues=404, InvalidAuthorizedAndPreAuthorizedCodeFlow=405, OptionsAreRequiredForEvaluation=406,
        UserPinMismatch=407, CredentialOfferMustBeSupplied=409),
    'jwt::error::JwtError': {n: 300 + i for i, n in enumerate(
        'ValidationError NotYetValid NotValidAnymore IssuerMismatch NoKeyFoundInProof NoDidDocumentProvidedForKidAsDid UnableToTransformIntoDid '
        'UnableToResolveDidInDidDocument UnableToMapVerificationMethodToJwk UnableToTransformIntoJoseItem UnsupportedAlgorithm EdDSAHasNoXCoordinate '
        'ESXXXHasNoXOrYCoordinate SignatureNotInJwt UnsupportedKeyTypeInJwtHeader NonceMismatch AudienceMismatch'.split())},
    'credential_issuer::error::CredentialIssuerError': {n: 100 + i for i, n in enumerate(
        'ValidationError JwtError AuthorizedFlowNotSupported CredentialIdNotInIssuerMetadata InvalidCredentialOfferEncoding InvalidRequestedCredential '
        'ExpiredCNonce CredentialAndAcceptanceTokenSupplied AuthorizationServerMetadataNotSupported CredentialOfferMustBeSupplied '
        'EvaluteCredentialRequestOptionsNotSupplied CNonceIsExpired NoProofInCredentialRequest'.split())},
}


def resolve_code(ck, st, t, err, adt, v):
    """the number a code term denotes for variant v of the error `err`; None when not known"""
    if t.op == 'discr' and t.a[0] == err:
        return ck.ir.discr_of(adt, v)
    if t.op == 'i':
        return t.a[0]
    n = st.const(t) if hasattr(st, 'const') else None
    return n


def codes_of(ck, rule, w, adt, outs, err, code_at):
    """{variant: {code}} over the exits"""
    uni = ck.universe(adt)
    got = {}
    for o in outs:
        if o.kind == 'panic':
            continue
        t = code_at(o)
        if t is None:
            continue
        for v in uni:
            if len(uni) > 1 and not feasible(o.st, isvar(err, v, uni)):
                continue
            if contains(t, lambda x: x.op == 'app' and x.a[0] == 'garbage_read'):
                ck.violate(rule, w, 'undefined', 'the code of %s is read from memory whose layout is not defined (no #[repr(u32)])' % adt)
                return None
            n = resolve_code(ck, o.st, t, err, adt, v)
            if n is None:
                op = opaque_in(t) or o.st.unk
                ck.require(False, rule, w, 'code ' + v, 'code of %s::%s is %s' % (adt, v, str(t)[:200]), 'unmodelled' if op else None)
            else:
                got.setdefault(v, set()).add(n)
    return got


def ret_root(ck, adt):
    """to_return_object of Result<_, adt>"""
    c = [r for r in ck.ir.roots if r['name'] == 'to_return_object' and 'impl_self' in r
         and any(ck.ir.types[x].get('p') == adt for x in ck.ir.types[r['impl_self']].get('a', []))]
    return c[0] if len(c) == 1 else None


def entry_points(ck, adt):
    """[(name, exits, error term, exit -> ErrorInformation term)]"""
    res = []
    for m in ('information', 'code'):
        r = ck.find('%s::%s' % (adt, m))
        if r is None:
            continue
        at = (lambda o: o.val) if m == 'information' else None
        res.append((m, ck.run_root(r, [P('self')]), P('self'), at))
    r = ret_root(ck, adt)
    if r is not None:
        res.append(('to_return_object', ck.run_root(r, [P('self')]), fld(P('self'), 'Err', '0'),
                    lambda o: S0(F(o.val, 'error')) if o.st.variant(F(o.val, 'error')) == 'Some' else None))
    return res


def c25(ck):
    total = {}
    for name, table in CODES.items():
        adt = ck.adt(name)
        if adt is None:
            ck.undecided('anchor', name, 'type %s not found' % name)
            continue
        uni = ck.universe(adt)
        short = name.split('::')[-1]
        for m, outs, err, at in entry_points(ck, adt):
            w = '%s::%s' % (short, m)
            got = codes_of(ck, 'code', w, adt, outs, err, (lambda o: o.val) if at is None else (lambda o: F(at(o), 'code') if at(o) is not None else None))
            for v, n in table.items():
                if v not in uni:
                    ck.violate('code', w, 'gone ' + v, 'no error kind %s' % v)
                elif got is not None and v in got:
                    ck.require(got[v] == {n}, 'code', w, 'code ' + v, 'code of %s is %s, documented %d' % (v, sorted(got[v]), n))
                elif got is not None and not ck.undec:
                    ck.violate('code', w, 'code ' + v, 'no code is reported for %s' % v)
            for v in uni:
                for n in (got or {}).get(v, ()):
                    total.setdefault(n, set()).add('%s::%s' % (short, v))
        if ret_root(ck, adt) is None and ck.find(adt + '::information') is None:
            ck.undecided('anchor', name, '%s reports no code' % name)
    for n, ks in sorted(total.items()):
        ck.require(len(ks) == 1, 'distinct', str(n), 'shared', 'code %d is shared by %s' % (n, sorted(ks)))
    ck.floor(len(ck.obl), 80, 'codes')


def details(ck, o, i, err, adt, w):
    """ErrorInformation i faithfully describes err"""
    uni = ck.universe(adt)
    st = o.st
    t = F(i, 'code')
    for v in uni:
        if len(uni) > 1 and not feasible(st, isvar(err, v, uni)):
            continue
        n = resolve_code(ck, st, t, err, adt, v)
        ck.require(n is not None and n == ck.ir.discr_of(adt, v), 'return.code', w, v, 'code %s for %s::%s' % (str(t)[:100], adt, v),
                   'unmodelled' if (opaque_in(t) or st.unk) and not contains(t, lambda x: x.op == 'app' and x.a[0] == 'garbage_read') else None)
        nm = F(i, 'name')
        ck.require(is_str(nm) and nm.a[1] == v, 'return.name', w, v, 'name %s for %s::%s' % (str(nm)[:100], adt, v),
                   'unmodelled' if not is_str(nm) and (opaque_in(nm) or st.unk) else None)
    ck.value(o, F(i, 'description'), App('display', err), 'return.description', w, 'description', 'description')
    a = F(i, 'additional_information')
    js = App('json_val', err)
    k = st.variant(a)
    if k == 'Some':
        ck.value(o, S0(a), fld(js, 'Ok', '0'), 'return.details', w, 'details', 'additional information')
    elif k == 'None':
        c = Or(errv(js), isvar(fld(js, 'Ok', '0'), 'Null', ('Null', 'Bool', 'Number', 'String', 'Array', 'Object')))
        ck.must(o, c, 'return.details', w, 'dropped', 'no additional information although the error has some', extra=[err])
    else:
        ck.value(o, a, App('ok', js), 'return.details', w, 'details', 'additional information')


def c26(ck):
    n = 0
    for name in CODES:
        adt = ck.adt(name)
        r = adt and ret_root(ck, adt)
        if not r:
            ck.undecided('anchor', name, 'to_return_object of Result<_, %s> not found' % name)
            continue
        w = 'Result<_, %s>::to_return_object' % name.split('::')[-1]
        s = P('self')
        seen = set()
        for o in ck.run_root(r, [s]):
            if o.kind != 'ret':
                ck.violate('return', w, 'no value', 'does not return: %s' % str(o.val)[:200]) if o.kind == 'panic' else None
                continue
            k = o.st.variant(s)
            i, e, wn = F(o.val, 'info'), F(o.val, 'error'), F(o.val, 'warnings')
            ck.value(o, wn, NONE, 'return.warnings', w, 'warnings', 'warnings')
            if k is None:
                ck.require(False, 'return', w, 'undistinguished', 'same object for success and failure: %s' % str(o.val)[:300], 'unmodelled' if o.st.unk else None)
                continue
            seen.add(k)
            if k == 'Ok':
                ck.value(o, i, Some(fld(s, 'Ok', '0')), 'return.info', w, 'info', 'info of a success')
                ck.value(o, e, NONE, 'return.error', w, 'error of success', 'error of a success')
            else:
                ck.value(o, i, NONE, 'return.info', w, 'info of failure', 'info of a failure')
                ke = o.st.variant(e)
                if ke == 'Some':
                    details(ck, o, S0(e), fld(s, 'Err', '0'), adt, w)
                else:
                    ck.require(False, 'return.error', w, 'error', 'error of a failure is %s' % str(e)[:200], 'unmodelled' if opaque_in(e) or o.st.unk else None)
        ck.require(seen == {'Ok', 'Err'}, 'return', w, 'outcomes', 'outcomes analysed: %s' % sorted(seen), 'parts not analysed' if ck.undec else None)
        r = ck.find(adt + '::information')
        if r:
            for o in ck.run_root(r, [P('self')]):
                if o.kind == 'ret':
                    details(ck, o, o.val, P('self'), adt, name.split('::')[-1] + '::information')
    w = 'ReturnObject::add_warning'
    c = [r for r in ck.ir.roots if r['name'] == 'add_warning']
    if len(c) != 1:
        ck.undecided('anchor', w, 'add_warning not found')
    else:
        s, x = P('self'), P('warning')
        ws = F(s, 'warnings')
        for o in ck.run_root(c[0], [s, x]):
            if o.kind != 'ret':
                continue
            n += 1
            for f in ('info', 'error'):
                ck.value(o, F(o.val, f), F(s, f), 'warning.rest', w, f, f)
            got = F(o.val, 'warnings')
            for k in ('None', 'Some'):
                st = o.st.copy()
                try:
                    st.set_variant(ws, k)
                except Dead:
                    continue
                warnings(ck, Out('ret', st, o.val), got, S0(ws) if k == 'Some' else None, x, w)
        ck.floor(n, 1, 'exits of add_warning')
    ck.floor(len(ck.obl), 200, 'return objects')


def warnings(ck, o, got, old, x, w):
    if o.st.variant(got) != 'Some':
        ck.require(False, 'warning.append', w, 'lost', 'warnings %s' % str(got)[:200], 'unmodelled' if opaque_in(got) or o.st.unk else None)
        return
    l = S0(got)
    want = T('push', old, x) if old is not None else T('arr', x)
    ok = same(o.st, l, want) or old is not None and appended(l, old, x)
    plain = l == old or l.op in ('push', 'arr', 'rev', 'slice') or l.op == 'app' and l.a[0] in ('concat', 'inserted', 'rotated', 'swapped', 'sorted', 'dedup', 'removed', 'swap_removed')
    plain = plain and not opaque_in(l) and not o.st.unk
    ck.require(ok, 'warning.append', w, 'list', 'warnings are %s, expected the old ones followed by the new one' % str(l)[:300],
               None if plain else 'list built in a way the analysis does not read')


def appended(l, old, x):
    """other spellings of old followed by x"""
    if l.op == 'app' and l.a[0] in ('concat', 'extend', 'chain') and len(l.a) == 3:
        return l.a[1] == old and l.a[2].op == 'arr' and tuple(l.a[2].a) == (x,)
    return False


def c39(ck):
    n = 0
    for name, op in (('base::base64url::decode', 'b64dec'), ('base::base64url::encode', 'b64enc')):
        r = ck.find(name)
        if r is None:
            continue
        x = P('input')
        want = App(op, Str(B64), x)
        for o in ck.run_root(r, [x]):
            if o.kind != 'ret':
                continue
            n += 1
            if op == 'b64enc':
                ck.value(o, o.val, want, 'codec.helper', name, 'value', name)
            else:
                k = o.st.variant(o.val)
                if o.val == want:
                    ck.ok('codec.helper', name, str(want))
                elif k == 'Ok':
                    ck.value(o, fld(o.val, 'Ok', '0'), fld(want, 'Ok', '0'), 'codec.helper', name, 'value', name)
                    ck.must(o, okv(want), 'codec.helper', name, 'accepts', 'malformed text is decoded', extra=[x])
                elif k == 'Err':
                    ck.must(o, errv(want), 'codec.helper', name, 'refuses', 'well-formed text is refused', extra=[x])
                else:
                    ck.value(o, o.val, want, 'codec.helper', name, 'value', name)
    # reading: the segments of a proof token
    outs = ck.run_trait('FromStr', 'jwt::ProofJwt', 'from_str', ['s']) or []
    w = 'ProofJwt::from_str'
    s = P('s')
    oks, errs = ck.split(outs)
    for o, v in oks:
        for i, f in ((0, 'header'), (1, 'body')):
            n += 1
            t = F(v, f)
            d = [x for x in subterms(t) if x.op == 'app' and x.a[0] == 'b64dec']
            if not d:
                ck.require(False, 'codec.read', w, f, 'the %s is not base64url-decoded: %s' % (f, str(t)[:200]), 'unmodelled' if opaque_in(t) or o.st.unk else None)
                continue
            for x in d:
                ck.require(is_str(x.a[1]) and x.a[1].a[1] == B64, 'codec.read', w, f + ' alphabet', 'the %s is decoded as %s, expected unpadded url-safe' % (f, x.a[1]))
            ck.require(len(d) == 1 and d[0].a[2].op != 'app' or d[0].a[2].op == 'app' and d[0].a[2].a[0] == 'seg', 'codec.read', w, f + ' once',
                       'the %s is decoded from %s, expected the segment itself' % (f, str(d[0].a[2])[:200]), 'unmodelled' if opaque_in(d[0].a[2]) else None)
            ck.must(o, okv(d[0]), 'codec.read', w, f + ' malformed', 'a token is read although decoding its %s may have failed' % f, extra=[s])
    # writing: the encoded credential
    outs = ck.run_trait('TryFrom', 'CredentialFormatProfileOrEncoded', 'try_from', ['value'], tparam='CredentialFormatProfile', optional=True) or []
    encs(ck, outs, 'CredentialFormatProfileOrEncoded::try_from', lambda v: v)
    import issuer
    what = P('credential')
    w = 'CredentialIssuer::create_credential_success_response'
    for o, r in ck.split(ck.run(w, 'request', what, 'nonce'))[0]:
        c = F(fld(r, '', '0'), 'credential')
        if o.st.variant(c) == 'Some':
            enc(ck, o, S0(c), w)
            n += 1
    ck.floor(n, 8, 'codec uses')


def encs(ck, outs, w, sel):
    for o, v in ck.split(outs)[0]:
        enc(ck, o, v, w)


def enc(ck, o, x, w):
    if o.st.variant(x) != 'Encoded':
        return
    t = fld(x, 'Encoded', '0')
    ok = t.op == 'app' and t.a[0] == 'b64enc'
    ck.require(ok, 'codec.write', w, 'form', 'the credential is written as %s, expected one base64url encoding' % str(t)[:200], 'unmodelled' if opaque_in(t) or o.st.unk else None)
    if ok:
        ck.require(is_str(t.a[1]) and t.a[1].a[1] == B64, 'codec.write', w, 'alphabet', 'the credential is encoded as %s, expected unpadded url-safe' % t.a[1])
        inner = [x for x in subterms(t.a[2]) if x.op == 'app' and x.a[0] in ('b64enc', 'b64dec')]
        ck.require(not inner, 'codec.write', w, 'once', 'encoded more than once: %s' % str(t)[:200])


RULES = dict(C25=c25, C26=c26, C39=c39)
