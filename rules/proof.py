"""Credential requests and proofs of possession: C11-C24."""
from lib import *
from seqs import *
import issuer
from issuer import fact_c, md, CS

EV = 'CredentialIssuer::evaluate_credential_request'
PRE = 'CredentialIssuer::pre_evaluate_credential_request'
SUC = 'CredentialIssuer::create_credential_success_response'
FS = '<ProofJwt as FromStr>::from_str'
req, offer, asm, doc, opts = map(P, ('request', 'offer', 'as_metadata', 'did_document', 'options'))
PR = F(req, 'proof')
JWT = F(S0(PR), 'jwt')
CN = F(S0(opts), 'c_nonce')
CNO = S0(CN)
CID = F(S0(opts), 'client_id')
GR = F(S0(offer), 'grants')
ACF, PAF = F(GR, 'authorized_code_flow'), F(GR, 'pre_authorized_code_flow')
NS = 10 ** 9
KEYK = ('KeyId', 'Jwk', 'X5c')
RES = ('Ok', 'Err')
TYP, PTYPE = 'openid4vci-proof+jwt', 'jwt'
B64 = Str('url-safe,unpadded,RequireNone,strict')


def cieq(t, s):
    return B(T('cieq', t, Str(s)))


class Proof:
    """terms of a proof token: header, body, and the conditions under which its text parses"""

    def __init__(self, H, BD, parse):
        self.H, self.B, self.parse = H, BD, parse
        self.typ, self.alg, self.add = F(H, 'typ'), F(H, 'alg'), F(H, 'additional_header')
        self.key = S0(self.add)
        self.kid = fld(self.key, 'KeyId', '0')
        self.nonce, self.aud, self.iss = F(BD, 'nonce'), F(BD, 'audience'), F(BD, 'issuer')
        self.nbf, self.exp = F(BD, 'not_before'), F(BD, 'expires_at')
        self.url = App('didurl', self.kid)
        # parsing a DID URL does not look at the scheme; the DID is a prefix of the key identifier that holds the first ':'
        did = F(fld(self.url, 'Ok', '0'), 'did')
        scheme = [B(App('starts_with', x, Str('did:'))) for x in (did, self.kid)]
        self.isdid = And(okv(self.url), Or(*scheme))
        self.notdid = Or(errv(self.url), *[~c for c in scheme])


def kind(t, k):
    return isvar(t, k, KEYK)


def proof_of(ck, jwt):
    """the proof that FromStr makes of the text `jwt`"""
    if not hasattr(ck, '_proof'):
        s = P('text')
        r = ck.run_trait('FromStr', 'jwt::ProofJwt', 'from_str', [s])
        oks, _ = ck.split(r or [])
        hs, bs = {F(v, 'header') for o, v in oks}, {F(v, 'body') for o, v in oks}
        if len(hs) != 1 or len(bs) != 1:
            ck.shaky = 'a parsed token does not have one header and one body: %s %s' % ([str(x)[:200] for x in hs], [str(x)[:200] for x in bs])
            ck.undecided('anchor', FS, ck.shaky)
        h = hs.pop() if hs else P('header')
        b = bs.pop() if bs else P('body')
        ck._proof = (h, b, Or(*[And(*[fact_c(ck, f) for f in sorted(o.st.facts(), key=repr)]) for o, v in oks]))
    h, b, c = ck._proof
    m = {P('text'): jwt}
    return Proof(subst(h, m), subst(b, m), subst_c(c, m))


def subst_c(c, m):
    if c.op == 'lit':
        return C('lit', subst(c.a[0], m))
    return C(c.op, *[subst_c(x, m) for x in c.a])


def self_proof(p=P('self')):
    return Proof(F(p, 'header'), F(p, 'body'), TT)


def ev_outs(ck):
    return ck.split(ck.run(EV, md, req, offer, asm, doc, opts))


def pre_outs(ck):
    return ck.split(ck.run(PRE, req))


def suc_outs(ck):
    return ck.split(ck.run(SUC, req, P('credential'), P('nonce')))


def leaf(v):
    return leaf_err(v)[0]


def named(errs, *names):
    """refusing exits whose innermost error has one of the names"""
    for o, v in errs:
        l = leaf(v)
        n = err_name(l)
        if n in names:
            yield o, l


def nows(st):
    return sorted({x for f in st.facts() for x in subterms(f[1]) if x.op == 'app' and x.a[0] == 'now'}, key=repr)


def some_now(st, f):
    """f(now) holds for one reading of the clock"""
    return any(entails(st, f(n)) is None for n in nows(st))


def opt_value(ck, o, got, present, val, rule, w, cls):
    """got is Some(val) when present, None otherwise"""
    for v in (True, False):
        s = feasible(o.st, present if v else ~present)
        if s is not None:
            ck.value(s, got, Some(val) if v else NONE, rule, w, cls, cls)


# ------------------------------------------------------------------ C11
def C11(ck):
    p = proof_of(ck, JWT)
    oks, errs = ev_outs(ck)
    for o, v in oks:
        ck.must(o, And(some(opts), some(CN), eq(p.nonce, F(CNO, 'expected_c_nonce'))), 'accepted-only-with-expected-nonce', EV, 'nonce', 'nonce of the proof')
    ck.floor(len(oks), 1, 'accepting exits of ' + EV)
    n = 0
    present = And(some(opts), some(CN))
    for o, l in named(errs, 'NonceMismatch'):
        n += 1
        opt_value(ck, o, fld(l, 'NonceMismatch', 'expected_nonce'), present, F(CNO, 'expected_c_nonce'), 'mismatch-report', EV, 'expected_nonce')
        ck.value(o, fld(l, 'NonceMismatch', 'actual_nonce'), p.nonce, 'mismatch-report', EV, 'actual_nonce', 'actual nonce')
        ck.must(o, Imp(present, ~eq(p.nonce, F(CNO, 'expected_c_nonce'))), 'refused-only-on-mismatch', EV, 'match')
    ck.floor(n, 1, 'nonce-mismatch exits of ' + EV)
    w = 'ProofJwt::check_nonce'
    q, g = self_proof(), P('nonce')
    oks, errs = ck.split(ck.run(w, P('self'), g))
    for o, v in oks:
        ck.must(o, And(some(g), eq(q.nonce, S0(g))), 'accepted-only-with-expected-nonce', w, 'nonce')
    for o, v in errs:
        if ck.require(err_name(v) == 'NonceMismatch', 'refusal-kind', w, str(err_name(v)), 'refused as %s' % str(v)[:200], opaque_in(v) and 'unmodelled' or None):
            ck.must(o, ~And(some(g), eq(q.nonce, S0(g))), 'refused-only-on-mismatch', w, 'match')
            opt_value(ck, o, fld(v, 'NonceMismatch', 'expected_nonce'), some(g), S0(g), 'mismatch-report', w, 'expected_nonce')
            ck.value(o, fld(v, 'NonceMismatch', 'actual_nonce'), q.nonce, 'mismatch-report', w, 'actual_nonce', 'actual nonce')
    ck.floor(len(oks), 1, 'accepting exits of ' + w)
    ck.floor(len(errs), 1, 'refusing exits of ' + w)


# ------------------------------------------------------------------ C12
EXPIRY = lin_add(F(CNO, 'c_nonce_created_at'), lin_scale(F(CNO, 'c_nonce_expires_in'), NS))


def C12(ck):
    oks, errs = ev_outs(ck)
    for o, v in oks:
        good = some_now(o.st, lambda n: le(n, EXPIRY))
        ck.require(good, 'accepted-only-within-lifetime', EV, 'lifetime', 'accepted without now <= creation + lifetime; path facts: ' + show_facts(o.st, 1500), ck.taint(o.st, [CN, CNO]))
    ck.floor(len(oks), 1, 'accepting exits of ' + EV)
    k = 0
    for o, l in named(errs, 'CNonceIsExpired'):
        k += 1
        n = fld(l, 'CNonceIsExpired', 'now')
        ck.require(n.op == 'app' and n.a[0] == 'now', 'expired-report', EV, 'now', 'reported current time %s' % n, opaque_in(n) and 'unmodelled' or None)
        ck.value(o, fld(l, 'CNonceIsExpired', 'expiry_timestamp'), EXPIRY, 'expired-report', EV, 'expiry_timestamp', 'reported expiry')
        ck.must(o, And(some(opts), some(CN)), 'refused-only-after-lifetime', EV, 'no-options')
        ck.must(o, lt(EXPIRY, n), 'refused-only-after-lifetime', EV, 'early')
    ck.floor(k, 1, 'nonce-expired exits of ' + EV)


# ------------------------------------------------------------------ C13
def C13(ck):
    p = proof_of(ck, JWT)
    oks, errs = ev_outs(ck)
    url = F(md, 'credential_issuer')
    for o, v in oks:
        ck.must(o, eq(p.aud, url), 'accepted-only-for-this-issuer', EV, 'audience')
    ck.floor(len(oks), 1, 'accepting exits of ' + EV)
    n = 0
    for o, l in named(errs, 'AudienceMismatch'):
        n += 1
        aud_report(ck, o, l, p, url, EV)
    ck.floor(n, 1, 'audience-mismatch exits of ' + EV)
    w = 'ProofJwt::check_aud'
    q, g = self_proof(), P('url')
    oks, errs = ck.split(ck.run(w, P('self'), g))
    for o, v in oks:
        ck.must(o, eq(q.aud, g), 'accepted-only-for-this-issuer', w, 'audience')
    for o, v in errs:
        if ck.require(err_name(v) == 'AudienceMismatch', 'refusal-kind', w, str(err_name(v)), 'refused as %s' % str(v)[:200], opaque_in(v) and 'unmodelled' or None):
            aud_report(ck, o, v, q, g, w)
    ck.floor(len(oks), 1, 'accepting exits of ' + w)
    ck.floor(len(errs), 1, 'refusing exits of ' + w)


def aud_report(ck, o, l, p, url, w):
    ck.must(o, ~eq(p.aud, url), 'refused-only-on-mismatch', w, 'match')
    ck.value(o, fld(l, 'AudienceMismatch', 'expected_aud_in_jwt'), url, 'mismatch-report', w, 'expected_aud_in_jwt', 'expected audience')
    ck.value(o, fld(l, 'AudienceMismatch', 'actual_aud_in_jwt'), p.aud, 'mismatch-report', w, 'actual_aud_in_jwt', 'actual audience')


# ------------------------------------------------------------------ C14
def opt_eq(a, b):
    return Or(And(none(a), none(b)), And(some(a), some(b), eq(S0(a), S0(b))))


def C14(ck):
    p = proof_of(ck, JWT)
    oks, errs = ev_outs(ck)
    exempt = And(none(CID), some(PAF), none(ACF))
    match = opt_eq(p.iss, CID)
    for o, v in oks:
        ck.must(o, Imp(some(opts), Or(exempt, match)), 'accepted-only-with-matching-issuer', EV, 'issuer')
    ck.floor(len(oks), 2, 'accepting exits of ' + EV)
    n = 0
    for o, l in named(errs, 'IssuerMismatch'):
        n += 1
        ck.must(o, Imp(some(opts), And(~exempt, ~match)), 'refused-only-on-mismatch', EV, 'match')
        opt_value(ck, o, fld(l, 'IssuerMismatch', 'expected_iss_in_jwt'), And(some(opts), some(CID)), S0(CID), 'mismatch-report', EV, 'expected_iss_in_jwt')
        opt_value(ck, o, fld(l, 'IssuerMismatch', 'actual_iss_in_jwt'), some(p.iss), S0(p.iss), 'mismatch-report', EV, 'actual_iss_in_jwt')
    ck.floor(n, 1, 'issuer-mismatch exits of ' + EV)
    w = 'ProofJwt::check_iss'
    q, g = self_proof(), P('client_id')
    oks, errs = ck.split(ck.run(w, P('self'), g))
    m = opt_eq(q.iss, g)
    for o, v in oks:
        ck.must(o, m, 'accepted-only-with-matching-issuer', w, 'issuer')
    for o, v in errs:
        if ck.require(err_name(v) == 'IssuerMismatch', 'refusal-kind', w, str(err_name(v)), 'refused as %s' % str(v)[:200], opaque_in(v) and 'unmodelled' or None):
            ck.must(o, ~m, 'refused-only-on-mismatch', w, 'match')
            opt_value(ck, o, fld(v, 'IssuerMismatch', 'expected_iss_in_jwt'), some(g), S0(g), 'mismatch-report', w, 'expected_iss_in_jwt')
            opt_value(ck, o, fld(v, 'IssuerMismatch', 'actual_iss_in_jwt'), some(q.iss), S0(q.iss), 'mismatch-report', w, 'actual_iss_in_jwt')
    ck.floor(len(oks), 1, 'accepting exits of ' + w)
    ck.floor(len(errs), 1, 'refusing exits of ' + w)


# ------------------------------------------------------------------ C15 / C16
def three_ops(ck):
    yield EV, ev_outs(ck)
    yield PRE, pre_outs(ck)
    yield SUC, suc_outs(ck)


def bad_algs(ck):
    u = ck.universe('jwt::ProofJwtAlgorithm')
    return u, [a for a in ('None', 'HS256', 'HS384', 'HS512') if a in u]


def alg_bad(ck, p):
    u, b = bad_algs(ck)
    return Or(*[isvar(p.alg, a, u) for a in b])


def C15(ck):
    p = proof_of(ck, JWT)
    good = And(cieq(F(S0(PR), 'proof_type'), PTYPE), p.parse, cieq(p.typ, TYP))
    for w, (oks, errs) in three_ops(ck):
        for o, v in oks:
            ck.must(o, Imp(some(PR), good), 'only-typed-proofs', w, 'type')
        ck.floor(len(oks), 1, 'accepting exits of ' + w)
        ck.floor(len(errs), 1, 'refusing exits of ' + w)
    # the validators refuse nothing but a wrong type, unreadable text or an unusable algorithm
    self = P('self')
    sp = proof_of(ck, F(self, 'jwt'))
    rp = proof_of(ck, F(S0(F(self, 'proof')), 'jwt'))
    q = Proof(self, P('unused'), TT)
    for ty, cond in (('types::credential_request::CredentialRequestProof', And(cieq(F(self, 'proof_type'), PTYPE), sp.parse, cieq(sp.typ, TYP))),
                     ('types::credential_request::CredentialRequest', Imp(some(F(self, 'proof')), And(cieq(F(S0(F(self, 'proof')), 'proof_type'), PTYPE), rp.parse, cieq(rp.typ, TYP)))),
                     ('jwt::ProofJwt', cieq(F(self, 'header', 'typ'), TYP)),
                     ('jwt::ProofJwtHeader', cieq(F(self, 'typ'), TYP))):
        w = '<%s as Validatable>::validate' % ty.split('::')[-1]
        r = ck.run_trait('Validatable', ty, 'validate', [self])
        if r is None:
            continue
        oks, errs = ck.split(r)
        H = {'CredentialRequestProof': sp, 'CredentialRequest': rp, 'ProofJwt': self_proof(), 'ProofJwtHeader': q}[ty.split('::')[-1]]
        for o, v in oks:
            ck.must(o, cond, 'valid-only-when-typed', w, 'type')
        for o, v in errs:
            ck.must(o, Or(~cond, alg_bad(ck, H)), 'any-casing-valid', w, 'refused')
        ck.floor(len(oks), 1, 'accepting exits of ' + w)
        ck.floor(len(errs), 1, 'refusing exits of ' + w)
    # the constants the documentation names
    for w, (oks, errs) in ((PRE, pre_outs(ck)),):
        for o, l in named(errs, 'Any'):
            ck.must(o, And(some(PR), Or(~good, alg_bad(ck, p))), 'any-casing-valid', w, 'refused')


def C16(ck):
    p = proof_of(ck, JWT)
    u, bad = bad_algs(ck)
    ck.require(len(bad) == 4, 'anchor', 'ProofJwtAlgorithm', 'names', 'variants None, HS256, HS384, HS512 exist: %s' % (bad,), 'names')
    for w, (oks, errs) in three_ops(ck):
        for o, v in oks:
            ck.must(o, Imp(some(PR), ~alg_bad(ck, p)), 'asymmetric-only', w, 'alg')
        ck.floor(len(oks), 1, 'accepting exits of ' + w)
    w = '<ProofJwtHeader as Validatable>::validate'
    q = Proof(P('self'), P('unused'), TT)
    r = ck.run_trait('Validatable', 'jwt::ProofJwtHeader', 'validate', [P('self')])
    if r is not None:
        oks, errs = ck.split(r)
        for o, v in oks:
            ck.must(o, ~alg_bad(ck, q), 'asymmetric-only', w, 'alg')
        for o, v in errs:
            ck.must(o, Or(alg_bad(ck, q), ~cieq(q.typ, TYP)), 'other-algorithms-valid', w, 'refused')
        ck.floor(len(oks), 1, 'accepting exits of ' + w)
        ck.floor(len(errs), 2, 'refusing exits of ' + w)


# ------------------------------------------------------------------ C17
def window_report(ck, o, l, p, w):
    n = err_name(l)
    now = fld(l, n, 'now')
    ck.require(now.op == 'app' and now.a[0] == 'now', 'window-report', w, n + '-now', 'reported current time %s' % now, opaque_in(now) and 'unmodelled' or None)
    if n == 'NotYetValid':
        ck.must(o, And(some(p.nbf), lt(now, S0(p.nbf))), 'refused-only-outside-window', w, n)
        ck.value(o, fld(l, n, 'valid_from'), S0(p.nbf), 'window-report', w, 'valid_from', 'reported bound')
    else:
        ck.must(o, And(some(p.exp), le(S0(p.exp), now)), 'refused-only-outside-window', w, n)
        ck.value(o, fld(l, n, 'valid_until'), S0(p.exp), 'window-report', w, 'valid_until', 'reported bound')


def in_window(ck, o, p, w):
    s = feasible(o.st, some(p.nbf))
    if s is not None:
        ck.require(some_now(s, lambda n: le(S0(p.nbf), n)), 'accepted-only-in-window', w, 'nbf', 'accepted before its not-before time; path facts: ' + show_facts(s, 1500), ck.taint(s, [p.nbf]))
    s = feasible(o.st, some(p.exp))
    if s is not None:
        ck.require(some_now(s, lambda n: lt(n, S0(p.exp))), 'accepted-only-in-window', w, 'exp', 'accepted at or after its expiration time; path facts: ' + show_facts(s, 1500), ck.taint(s, [p.exp]))
    if s is None:
        ck.ok('accepted-only-in-window', w, 'no bounds')


def C17(ck):
    p = proof_of(ck, JWT)
    q = self_proof()
    w2 = 'ProofJwt::verify'
    for w, (oks, errs), x in ((EV, ev_outs(ck), p), (w2, ck.split(ck.run(w2, P('self'))), q)):
        kinds = set()
        for o, v in oks:
            in_window(ck, o, x, w)
        for o, l in named(errs, 'NotYetValid', 'NotValidAnymore'):
            kinds.add(err_name(l))
            window_report(ck, o, l, x, w)
        if w == w2:
            for o, v in errs:
                ck.require(err_name(v) in ('NotYetValid', 'NotValidAnymore'), 'refuses-nothing-else', w, str(err_name(v)), 'refused as %s' % str(v)[:200], opaque_in(v) and 'unmodelled' or None)
        ck.require(len(kinds) == 2, 'floor', w, 'kinds', 'both bounds are enforced: %s' % sorted(kinds), ck.undec and 'not analysed' or None)
        ck.floor(len(oks), 1, 'accepting exits of ' + w)


# ------------------------------------------------------------------ C18
def C18(ck):
    oks, errs = ev_outs(ck)
    for o, v in oks:
        ck.must(o, And(some(offer), none(asm), some(PR)), 'accepted-only-in-supported-context', EV, 'context')
    ck.floor(len(oks), 1, 'accepting exits of ' + EV)
    for n, c in (('CredentialOfferMustBeSupplied', none(offer)), ('AuthorizationServerMetadataNotSupported', some(asm)), ('NoProofInCredentialRequest', none(PR))):
        k = 0
        for o, l in named(errs, n):
            k += 1
            ck.must(o, c, 'error-names-its-case', EV, n)
        ck.floor(k, 1, '%s exits of %s' % (n, EV))
    # each case is refused by the error that names it, unless another condition that is checked failed as well
    for o, v in errs:
        l = err_name(leaf(v))
        for n, c, earlier in (('CredentialOfferMustBeSupplied', none(offer), ('Any',)),
                              ('AuthorizationServerMetadataNotSupported', some(asm), ('Any', 'CredentialOfferMustBeSupplied')),
                              ('NoProofInCredentialRequest', none(PR), ('Any', 'CredentialOfferMustBeSupplied', 'AuthorizationServerMetadataNotSupported', 'CNonceIsExpired'))):
            if l == n or l in earlier:
                continue
            # facts prove the case but another error was given: it has to be one of another condition
            if entails(o.st, c) is None:
                ck.require(l in JUSTIFY or l in ('CredentialOfferMustBeSupplied', 'AuthorizationServerMetadataNotSupported', 'NoProofInCredentialRequest'), 'case-named', EV, '%s-as-%s' % (n, l), 'case %s refused as %s' % (n, l), None)


# ------------------------------------------------------------------ C19
def jwks(p):
    """JWK terms reachable from the proof"""
    did = fld(p.url, 'Ok', '0')
    sel = App('select_object', S0(doc), did)
    vm = fld(fld(sel, 'Ok', '0'), 'VerificationMethod', '0')
    gj = App('get_jwk', vm)
    return did, sel, gj


def jd(ck, st, x):
    """JSON reading of the embedded JWK as it appears on this path"""
    for k, t, v in st.facts():
        for y in subterms(t):
            if y.op == 'app' and y.a[0].startswith('json_de|') and y.a[1] is x:
                return y
    return None


def key_of(ck, st, p, document=doc):
    """[(condition, JWK term)] of the key the header names"""
    did = fld(p.url, 'Ok', '0')
    sel = App('select_object', S0(document), did)
    gj = App('get_jwk', fld(fld(sel, 'Ok', '0'), 'VerificationMethod', '0'))
    out = [(And(some(p.add), kind(p.key, 'KeyId')), fld(gj, 'Ok', '0'))]
    y = jd(ck, st, fld(p.key, 'Jwk', '0'))
    if y is not None:
        out.append((And(some(p.add), kind(p.key, 'Jwk')), fld(y, 'Ok', '0')))
    return out


def usable(ck, J):
    """which key kinds give a public key"""
    pu = ck.universe('ssi_jwk::Params')
    au = ck.universe('ssi_jwk::Algorithm')
    par = F(J, 'params')
    ga = App('get_algorithm', J)
    ed = And(some(ga), isvar(S0(ga), 'EdDSA', au))
    ec = isvar(par, 'EC', pu)
    okp = isvar(par, 'OKP', pu)
    x = fld(fld(par, 'EC', '0'), '', 'x_coordinate')
    return okp, ec, ed, x


JUSTIFY = {'CNonceIsExpired', 'NonceMismatch', 'IssuerMismatch', 'AudienceMismatch', 'NotYetValid', 'NotValidAnymore', 'NoKeyFoundInProof',
           'NoDidDocumentProvidedForKidAsDid', 'UnableToTransformIntoDid', 'UnableToResolveDidInDidDocument', 'UnableToMapVerificationMethodToJwk',
           'UnableToTransformIntoJoseItem', 'UnsupportedAlgorithm', 'EdDSAHasNoXCoordinate', 'SignatureNotInJwt', 'UnsupportedKeyTypeInJwtHeader'}


def justified(ck, o, l, p, document=doc, sig=None):
    """condition that makes the refusal l legitimate"""
    n = err_name(l)
    did = fld(p.url, 'Ok', '0')
    sel = App('select_object', S0(document), did)
    gj = App('get_jwk', fld(fld(sel, 'Ok', '0'), 'VerificationMethod', '0'))
    kid = And(some(p.add), kind(p.key, 'KeyId'))
    jwk = And(some(p.add), kind(p.key, 'Jwk'))
    y = jd(ck, o.st, fld(p.key, 'Jwk', '0'))
    if n == 'NoKeyFoundInProof':
        return none(p.add)
    if n == 'UnsupportedKeyTypeInJwtHeader':
        return And(some(p.add), ~kind(p.key, 'KeyId'))
    if n == 'UnableToTransformIntoDid':
        return And(kid, p.notdid)
    if n == 'NoDidDocumentProvidedForKidAsDid':
        return And(kid, none(document))
    if n == 'UnableToResolveDidInDidDocument':
        return And(kid, errv(sel))
    if n == 'UnableToMapVerificationMethodToJwk':
        return And(kid, errv(gj))
    if n == 'UnableToTransformIntoJoseItem':
        alts = [errv(App('json_ser', p.H)), errv(App('json_ser', p.B))]
        if y is not None:
            alts.append(And(jwk, errv(y)))
        return Or(*alts)
    if n in ('UnsupportedAlgorithm', 'EdDSAHasNoXCoordinate'):
        alts = []
        for c, J in key_of(ck, o.st, p, document):
            okp, ec, ed, x = usable(ck, J)
            alts.append(And(c, And(~okp, ~And(ec, ed)) if n == 'UnsupportedAlgorithm' else And(ec, ed, none(x))))
        return Or(*alts)
    return None


def C19(ck):
    p = proof_of(ck, JWT)
    typed = And(cieq(F(S0(PR), 'proof_type'), PTYPE), p.parse, cieq(p.typ, TYP), ~alg_bad(ck, p))
    has_nonce = And(some(opts), some(CN))
    exempt = And(none(CID), some(PAF), none(ACF))
    segs = App('nseg', JWT, Str('.'))
    for w, (oks, errs) in ((EV, ev_outs(ck)), (PRE, pre_outs(ck))):
        seen = {}
        for o, v in errs:
            l, chain = leaf_err(v)
            n = err_name(l)
            seen[n] = seen.get(n, 0) + 1
            c = None
            if n == 'Any':
                if w == EV and issuer.duplicate(o.st, CS):
                    ck.ok('refusal-justified', w, 'duplicate ids')
                    continue
                c = And(some(PR), ~typed)
            elif n == 'CredentialOfferMustBeSupplied':
                c = none(offer)
            elif n == 'AuthorizationServerMetadataNotSupported':
                c = some(asm)
            elif n == 'NoProofInCredentialRequest':
                c = none(PR)
            elif n == 'CNonceIsExpired':
                if not some_now(o.st, lambda t: And(has_nonce, lt(EXPIRY, t))):
                    ck.must(o, FF, 'refusal-justified', w, n, 'nonce reported expired', [EXPIRY])
                else:
                    ck.ok('refusal-justified', w, n)
                continue
            elif n == 'NonceMismatch':
                c = Or(~has_nonce, ~eq(p.nonce, F(CNO, 'expected_c_nonce')))
            elif n == 'IssuerMismatch':
                c = And(some(opts), ~exempt, ~opt_eq(p.iss, CID))
            elif n == 'AudienceMismatch':
                c = ~eq(p.aud, F(md, 'credential_issuer'))
            elif n in ('NotYetValid', 'NotValidAnymore'):
                f = (lambda t: And(some(p.nbf), lt(t, S0(p.nbf)))) if n == 'NotYetValid' else (lambda t: And(some(p.exp), le(S0(p.exp), t)))
                ck.require(some_now(o.st, f), 'refusal-justified', w, n, 'refused as %s; path facts: %s' % (n, show_facts(o.st, 1200)), ck.taint(o.st, [p.nbf, p.exp]))
                continue
            elif n == 'SignatureNotInJwt':
                c = lt(segs, Int(3))
            else:
                c = justified(ck, o, l, p)
            if c is None:
                ck.require(False, 'refusal-justified', w, 'undocumented-' + str(n), 'undocumented refusal %s' % str(l)[:200], (o.st.unk or opaque_in(l)) and 'unmodelled' or None)
                continue
            ck.must(o, c, 'refusal-justified', w, str(n), 'refused as %s' % n)
        ck.floor(len(errs), 20 if w == EV else 6, 'refusing exits of ' + w)
        ck.coverage = getattr(ck, 'coverage', {})
        ck.coverage['refusals of ' + w] = seen
    for w, (oks, errs) in ((EV, ev_outs(ck)),):
        ck.floor(len(oks), 2, 'accepting exits of ' + w)


# ------------------------------------------------------------------ C20
def C20(ck):
    p = proof_of(ck, JWT)
    oks, errs = ev_outs(ck)
    u = fld(p.url, 'Ok', '0')
    J = fld(App('get_jwk', fld(fld(App('select_object', S0(doc), u), 'Ok', '0'), 'VerificationMethod', '0')), 'Ok', '0')
    okp, ec, ed, x = usable(ck, J)
    kinds = set()
    for o, v in oks:
        pop = F(v, 'proof_of_possession')
        ck.value(o, F(v, 'credential'), F(req, 'format'), 'credential-of-request', EV, 'credential', 'credential')
        if not ck.require(o.st.variant(pop) == 'Some', 'material-present', EV, 'none', 'accepted without proof-of-possession material: %s' % str(pop)[:200], opaque_in(pop) and 'unmodelled' or None):
            continue
        m = S0(pop)
        ck.value(o, F(m, 'algorithm'), p.alg, 'algorithm-of-header', EV, 'algorithm', 'algorithm')
        ck.must(o, And(some(p.add), kind(p.key, 'KeyId'), okv(p.url)), 'key-identified', EV, 'kid')
        ck.value(o, F(v, 'subject_id'), Some(F(u, 'did')), 'subject-of-key-id', EV, 'subject_id', 'subject')
        k = F(m, 'public_key')
        good = False
        for c, t in ((okp, fld(fld(F(J, 'params'), 'OKP', '0'), '', 'public_key')), (And(ec, ed, some(x)), S0(x))):
            t = fld(t, '', '0')
            if same(o.st, k, t):
                good = entails(o.st, c) is None
                kinds.add(str(c))
        ck.require(good, 'key-of-key-id', EV, 'public_key', 'public key %s' % str(k)[:400], (o.st.unk or opaque_in(k)) and 'unmodelled' or None)
    ck.floor(len(oks), 1, 'accepting exits of ' + EV)


# ------------------------------------------------------------------ C21
def C21(ck):
    p = proof_of(ck, JWT)
    oks, errs = ev_outs(ck)
    seg = [App('seg', JWT, Str('.'), Int(i)) for i in range(3)]
    msg = cat([seg[0], Str('.'), seg[1]])
    ser = [fld(App('json_ser', p.H), 'Ok', '0'), fld(App('json_ser', p.B), 'Ok', '0')]
    sig = None
    for o, v in oks:
        m = S0(F(v, 'proof_of_possession'))
        for f, exp in (('signature', seg[2]), ('message', msg)):
            got = F(m, f)
            if same(o.st, got, exp) or f == 'message' and prefix_of(got, JWT, 2):
                ck.ok('as-received', EV, f)
                continue
            cls = f + ('-reserialised' if reserialised(o.st, got, ser, seg[2]) else '-other')
            ck.require(False, 'as-received', EV, cls, '%s is %s, received %s' % (f, str(got)[:500], exp), (o.st.unk or any(y.op == 'phi' or JWT in subterms(y) for y in opaque_in(got))) and 'unmodelled' or None)
    ck.floor(len(oks), 1, 'accepting exits of ' + EV)


def prefix_of(t, s, n):
    return t.op == 'app' and t.a[0] == 'prefixseg' and t.a[1] is s


def reserialised(st, t, ser, sig):
    """the value the current code computes: pieces of header.body[.signature] re-serialised as JSON"""
    full = [cat([ser[0], Str('.'), ser[1], Str('.'), sig]), cat([ser[0], Str('.'), ser[1]])]
    for j in full:
        three = st.lin_range(App('nseg', j, Str('.'))) == (3, 3)
        if t is j and not three or t is App('rest', j, Str('.'), Int(2)) or t is App('seg', j, Str('.'), Int(2)) and st.lin_range(App('nseg', j, Str('.'))) == (3, 3):
            return True
        if t is cat([App('seg', j, Str('.'), Int(0)), Str('.'), App('seg', j, Str('.'), Int(1))]):
            return True
    return False


# ------------------------------------------------------------------ C22
def C22(ck):
    p = proof_of(ck, JWT)
    oks, errs = pre_outs(ck)
    did_rules(ck, PRE, [(o, F(v, 'did')) for o, v in oks], errs, p, some(PR))
    q = self_proof()
    w = 'ProofJwt::extract_did'
    oks, errs = ck.split(ck.run(w, P('self')))
    did_rules(ck, w, oks, errs, q, TT)
    for o, v in errs:
        ck.require(err_name(v) in ('UnsupportedKeyTypeInJwtHeader', 'UnableToTransformIntoDid'), 'refusal-kind', w, str(err_name(v)), 'refused as %s' % str(v)[:200], opaque_in(v) and 'unmodelled' or None)
    oks, errs = ev_outs(ck)
    for o, v in oks:
        ck.must(o, And(some(p.add), kind(p.key, 'KeyId'), p.isdid), 'subject-is-that-did', EV, 'kid')
        ck.value(o, F(v, 'subject_id'), Some(F(fld(p.url, 'Ok', '0'), 'did')), 'subject-is-that-did', EV, 'subject_id', 'subject')
    ck.floor(len(oks), 1, 'accepting exits of ' + EV)


def did_rules(ck, w, oks, errs, p, has):
    n = {'None': 0, 'Some': 0}
    for o, v in oks:
        for k in ('None', 'Some'):
            s = feasible(o.st, isvar(v, k, ('None', 'Some')))
            if s is None:
                continue
            n[k] += 1
            if k == 'None':
                ck.must(s, Or(~has, none(p.add)), 'no-did-only-without-key', w, 'dropped')
            else:
                ck.must(s, And(has, some(p.add), kind(p.key, 'KeyId'), p.isdid), 'did-only-of-key-id', w, 'kid')
                ck.value(s, S0(v), F(fld(p.url, 'Ok', '0'), 'did'), 'did-of-key-id', w, 'did', 'DID')
    for o, l in named(errs, 'UnsupportedKeyTypeInJwtHeader'):
        ck.must(o, And(has, some(p.add), ~kind(p.key, 'KeyId')), 'refused-only-for-other-keys', w, 'kind')
        for k, nm in (('Jwk', 'jwk'), ('X5c', 'x5c')):
            s = feasible(o.st, kind(p.key, k))
            if s is not None:
                ck.value(s, fld(l, err_name(l), 'key_name'), Str(nm), 'refusal-names-key', w, nm, 'key name')
                ck.value(s, fld(l, err_name(l), 'key_type'), fld(p.key, k, '0'), 'refusal-names-key', w, nm + '-value', 'key')
    for o, l in named(errs, 'UnableToTransformIntoDid'):
        ck.must(o, And(has, some(p.add), kind(p.key, 'KeyId'), p.notdid), 'refused-only-for-bad-did', w, 'did')
        ck.value(o, fld(l, err_name(l), 'kid'), p.kid, 'refusal-names-kid', w, 'kid', 'kid')
    ck.require(n['None'] and n['Some'], 'floor', w, 'kinds', 'exits with and without a DID: %s' % n, ck.undec and 'not analysed' or None)


# ------------------------------------------------------------------ C23
def C23(ck):
    self, d = P('self'), P('document')
    for w, p in (('ProofJwtHeader::extract_key_and_alg', Proof(self, P('unused'), TT)), ('ProofJwt::extract_key_and_alg', self_proof())):
        oks, errs = ck.split(ck.run(w, self, d))
        seen = set()
        for o, v in oks:
            key, alg = tup_field(v, 0), tup_field(v, 1)
            ck.value(o, alg, p.alg, 'algorithm-of-header', w, 'algorithm', 'algorithm')
            got = None
            for c, J in key_of(ck, o.st, p, d):
                s = feasible(o.st, c)
                if s is None:
                    continue
                okp, ec, ed, x = usable(ck, J)
                for nm, cc, t in (('OKP', okp, fld(fld(F(J, 'params'), 'OKP', '0'), '', 'public_key')), ('EC', And(ec, ed, some(x)), S0(x))):
                    if same(s, key, fld(t, '', '0')) and entails(o.st, And(c, cc)) is None:
                        got = nm
            seen.add(got)
            ck.require(got is not None, 'public-material-only', w, 'key', 'key bytes %s ; path facts: %s' % (str(key)[:300], show_facts(o.st)), (o.st.unk or opaque_in(key)) and 'unmodelled' or None)
        for o, v in errs:
            c = justified(ck, o, v, p, d)
            if c is None:
                ck.require(False, 'refusal-kind', w, str(err_name(v)), 'refused as %s' % str(v)[:200], opaque_in(v) and 'unmodelled' or None)
                continue
            ck.must(o, c, 'refusal-justified', w, str(err_name(v)), 'refused as %s' % err_name(v))
        ck.require(seen >= {'OKP', 'EC'}, 'floor', w, 'kinds', 'both kinds of public key are returned: %s' % sorted(map(str, seen)), ck.undec and 'not analysed' or None)
        names = {err_name(v) for o, v in errs}
        ck.require('EdDSAHasNoXCoordinate' in names, 'missing-x-reported', w, 'missing-x', 'refusals: %s' % sorted(map(str, names)), ck.undec and 'not analysed' or None)


def tup_field(v, i):
    if v.op == 'tup':
        return v.a[i]
    return fld(v, '', str(i))


# ------------------------------------------------------------------ C24
def C24(ck):
    s = P('text')
    r = ck.run_trait('FromStr', 'jwt::ProofJwt', 'from_str', [s])
    if r is None:
        return
    oks, errs = ck.split(r)
    n = App('nseg', s, Str('.'))
    seg = [App('seg', s, Str('.'), Int(i)) for i in range(3)]
    dec = [App('b64dec', B64, x) for x in seg]
    body = [App('json_de|' + t, fld(d, 'Ok', '0')) for t, d in zip(('jwt::ProofJwtHeader', 'jwt::ProofJwtBody'), dec)]
    good = And(le(Int(2), n), le(n, Int(3)), okv(dec[0]), okv(dec[1]), okv(body[0]), okv(body[1]))
    for o, v in oks:
        ck.must(o, good, 'accepted-only-two-or-three-segments', FS, 'segments')
        for f, t in (('header', body[0]), ('body', body[1])):
            ck.value(o, F(v, f), fld(t, 'Ok', '0'), 'segment-by-position', FS, f, f)
        sg = F(v, 'signature')
        for k, c in ((2, le(n, Int(2))), (3, le(Int(3), n))):
            st = feasible(o.st, c)
            if st is not None:
                ck.value(st, sg, NONE if k == 2 else Some(seg[2]), 'segment-by-position', FS, 'signature-%d' % k, 'signature')
    for o, v in errs:
        ck.must(o, ~good, 'refused-only-malformed', FS, 'refused')
    ck.floor(len(oks), 1, 'accepting exits of ' + FS)
    ck.floor(len(errs), 3, 'refusing exits of ' + FS)


RULES = dict(C11=C11, C12=C12, C13=C13, C14=C14, C15=C15, C16=C16, C17=C17, C18=C18, C19=C19, C20=C20, C21=C21, C22=C22, C23=C23, C24=C24)
