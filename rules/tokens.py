"""Token requests: C01-C05, C07, C27 and the token part of C06."""
from lib import *

EVAL = 'AccessToken::evaluate_access_token_request'
MAXPIN = 99999999
req, offer, opts = P('request'), P('offer'), P('options')
gt = F(req, 'grant_type')
code = F(gt, 'PreAuthorizedCodeFlow:pre_authorized_code')
pin = F(gt, 'PreAuthorizedCodeFlow:user_pin')
grants = F(S0(offer), 'grants')
acf = F(grants, 'authorized_code_flow')
pre = F(grants, 'pre_authorized_code_flow')
offcode = F(S0(pre), 'code')
upr = F(S0(pre), 'user_pin_required')
exp = F(S0(opts), 'expected_user_pin')
GT = ('AuthorizedCodeFlow', 'PreAuthorizedCodeFlow')
is_auth = isvar(gt, 'AuthorizedCodeFlow', GT)
is_pre = isvar(gt, 'PreAuthorizedCodeFlow', GT)
pin_given = some(pin)
pin_needed = And(some(upr), B(S0(upr)))
pin_known = And(some(opts), some(exp))
pin_equal = And(pin_known, inteq(S0(pin), S0(exp)))
code_equal = eq(offcode, code)
short = Or(~pin_given, le(S0(pin), Int(MAXPIN)))
offer_pre = And(some(offer), some(pre))
accept = And(is_pre, short, offer_pre, code_equal, Iff(pin_given, pin_needed), Or(~pin_given, pin_equal))


def outs(ck):
    return ck.run(EVAL, req, offer, opts)


def C01(ck):
    oks, errs = ck.split(outs(ck))
    for o, v in oks:
        ck.must(o, some(offer), 'accepted-only-with-offer', EVAL, 'offer')
        ck.must(o, And(some(offer), some(pre)), 'accepted-only-with-pre-authorized-grant', EVAL, 'grant')
        ck.must(o, is_pre, 'accepted-only-with-pre-authorized-grant-type', EVAL, 'type')
        ck.must(o, And(is_pre, code_equal), 'accepted-only-with-equal-code', EVAL, 'code')
    ck.floor(len(oks), 1, 'accepting exits of ' + EVAL)
    ck.floor(len(errs), 5, 'refusing exits of ' + EVAL)


def C02(ck):
    oks, _ = ck.split(outs(ck))
    for o, v in oks:
        ck.must(o, Imp(And(is_pre, pin_given), pin_needed), 'pin-only-when-required', EVAL, 'superfluous')
        ck.must(o, Imp(And(is_pre, offer_pre, pin_needed), pin_given), 'pin-when-required', EVAL, 'absent')
        ck.must(o, Imp(And(is_pre, pin_given), pin_known), 'pin-compared', EVAL, 'no-expected')
        ck.must(o, Imp(And(is_pre, pin_given), pin_equal), 'pin-equal', EVAL, 'different')
    ck.floor(len(oks), 1, 'accepting exits of ' + EVAL)


def C03(ck):
    oks, errs = ck.split(outs(ck))
    for o, v in oks:
        ck.must(o, Imp(is_pre, short), 'accepted-pin-short', EVAL, 'long')
    for o, v in errs:
        if err_name(v) == 'ValidationError':
            ck.must(o, And(is_pre, pin_given, ~short), 'validation-refusal-only-for-long-pin', EVAL, 'refused-short')
        else:
            # refused for its length before anything else is decided about the request
            ck.must(o, Imp(is_pre, short), 'long-pin-refused-as-such', EVAL, 'late')
    ck.floor(len(oks), 1, 'accepting exits of ' + EVAL)
    for ty, g in (('AccessTokenRequest', F(P('self'), 'grant_type')), ('GrantType', P('self'))):
        o2 = ck.run_trait('Validatable', ty, 'validate', ['self'])
        if o2 is None:
            continue
        w = ty + '::validate'
        p = F(g, 'PreAuthorizedCodeFlow:user_pin')
        long_ = And(isvar(g, 'PreAuthorizedCodeFlow', GT), some(p), ~le(S0(p), Int(MAXPIN)))
        oks, errs = ck.split(o2)
        for o, v in oks:
            ck.must(o, ~long_, 'validate-accepts-short', w, 'long')
        for o, v in errs:
            ck.must(o, long_, 'validate-refuses-long', w, 'refused-short')
        ck.floor(len(oks), 1, 'accepting exits of ' + w)
        ck.floor(len(errs), 1, 'refusing exits of ' + w)


def C04(ck):
    oks, errs = ck.split(outs(ck))
    for o, v in oks:
        ck.must(o, ~is_auth, 'authorization-code-refused', EVAL, 'accepted')
    for o, v in errs:
        if err_name(v) == 'AuthorizedFlowNotSupported':
            ck.must(o, is_auth, 'unsupported-flow-only-for-that-flow', EVAL, 'other-flow')
        else:
            ck.must(o, ~is_auth, 'authorization-code-refused-as-unsupported', EVAL, 'other-error', 'refused as %s' % err_name(v))
    ck.floor(len([1 for o, v in errs if err_name(v) == 'AuthorizedFlowNotSupported']), 1, 'unsupported-flow exits of ' + EVAL)
    CO = 'CredentialIssuer::create_offer'
    md, creds, ep, a, p = map(P, ('md', 'creds', 'ep', 'acf', 'pre'))
    oks, errs = ck.split(ck.run(CO, md, creds, ep, a, p))
    n = 0
    for o, v in oks:
        ck.must(o, none(a), 'no-offer-with-authorization-code-grant', CO, 'created')
    for o, v in errs:
        if err_name(v) == 'AuthorizedFlowNotSupported':
            n += 1
            ck.must(o, some(a), 'offer-refused-only-for-that-grant', CO, 'other')
        elif err_name(v) == 'ValidationError' and not o.st.variant(a):
            # the metadata may be refused first
            ck.ok('refusal-before-grants', CO)
        else:
            ck.must(o, none(a), 'authorization-code-grant-refused-as-unsupported', CO, 'other-error')
    ck.floor(len(oks), 1, 'creating exits of ' + CO)
    ck.floor(n, 1, 'unsupported-flow exits of ' + CO)


def justify(ck, o, v, top=True):
    """the refusal names a condition that failed on this path"""
    n = err_name(v)
    w = EVAL
    if n == 'ValidationError':
        ck.must(o, And(is_pre, pin_given, ~short), 'refusal-true-cause', w, n)
    elif n == 'AuthorizedFlowNotSupported':
        ck.must(o, is_auth, 'refusal-true-cause', w, n)
    elif n == 'CredentialOfferMustBeSupplied':
        ck.must(o, none(offer), 'refusal-true-cause', w, n)
    elif n == 'NoFlowSupportedInCredentialOffer':
        ck.must(o, And(some(offer), none(acf), none(pre)), 'refusal-true-cause', w, n)
    elif n == 'InvalidGrantType':
        ck.must(o, And(some(offer), some(acf), is_pre), 'refusal-true-cause', w, n)
        # where the two grant types are named by fixed texts, these name the right ones
        a, b = fld(v, n, 'requested_grant_type'), fld(v, n, 'accepted_grant_type')
        if is_str(a):
            ck.require('pre' in a.a[1].lower(), 'refusal-names-grant', w, 'requested', 'a pre-authorized code was presented, the refusal says %s was' % a)
        if b.op == 'arr' and b.a and all(is_str(x) for x in b.a):
            ck.require(not any('pre' in x.a[1].lower() for x in b.a), 'refusal-names-grant', w, 'accepted', 'only the authorization code is accepted, the refusal says %s' % b)
        if top:
            ck.must(o, none(pre), 'refusal-true-cause', w, n + '-top')
    elif n == 'OptionsAreRequiredForEvaluation':
        ck.must(o, And(is_pre, pin_given, ~pin_known), 'refusal-true-cause', w, n)
    elif n == 'UserPinMismatch':
        ck.must(o, And(is_pre, pin_given, pin_known, ~pin_equal), 'refusal-true-cause', w, n)
    elif n == 'InvalidPreAuthorizedCodeFlowValues':
        a, b = fld(v, n, 'should_pin_be_supplied'), fld(v, n, 'does_code_match')
        ck.must(o, And(offer_pre, is_pre, Or(~Iff(pin_given, pin_needed), ~code_equal)), 'refusal-true-cause', w, n)
        ck.must(o, Iff(B(a), pin_needed), 'reported-pin-flag', w, n, extra=(a,))
        ck.must(o, Iff(B(b), code_equal), 'reported-code-flag', w, n, extra=(b,))
    elif n == 'InvalidAuthorizedAndPreAuthorizedCodeFlow':
        ck.must(o, And(some(offer), some(acf), some(pre)), 'refusal-true-cause', w, n)
        x, y = fld(v, n, 'authorized_error'), fld(v, n, 'pre_authorized_error')
        ck.require(err_name(x) == 'InvalidGrantType', 'refusal-authorized-part', w, str(err_name(x)), 'authorized part is %s' % err_name(x), tainted(ck, o, x))
        ck.require(err_name(y) in ('OptionsAreRequiredForEvaluation', 'UserPinMismatch', 'InvalidPreAuthorizedCodeFlowValues'),
                   'refusal-pre-authorized-part', w, str(err_name(y)), 'pre-authorized part is %s' % err_name(y), tainted(ck, o, y))
        if err_name(x):
            justify(ck, o, x, False)
        if err_name(y):
            justify(ck, o, y, False)
    else:
        ck.require(False, 'refusal-documented', w, str(n), 'refusal %s has no documented cause' % str(v)[:200], tainted(ck, o, v))


def tainted(ck, o, v):
    if o.st.unk:
        return 'unmodelled operations %s' % sorted(map(str, o.st.unk))[:3]
    if v.op != 'adt' and opaque_in(v):
        return 'value of an unmodelled function'
    return None


def C05(ck):
    oks, errs = ck.split(outs(ck))
    for o, v in errs:
        ck.must(o, ~accept, 'acceptable-request-not-refused', EVAL, str(err_name(v)))
        justify(ck, o, v)
    ck.floor(len(errs), 8, 'refusing exits of ' + EVAL)
    ck.floor(len({leaf for o, v in errs for leaf in [err_name(v)]}), 8, 'refusal kinds of ' + EVAL)


NAMES_S = ['access_token', 'token_type', 'expires_in', 'scope', 'c_nonce', 'c_nonce_expires_in', 'authorization_pending', 'interval']
CREATE = 'AccessToken::create_access_token_success_response'


def C07(ck):
    nonce, life = P('c_nonce'), P('c_nonce_expires_in')
    bad = And(none(nonce), some(life))
    oks, errs = ck.split(ck.run(CREATE, *NAMES_S))
    for o, v in oks:
        ck.must(o, ~bad, 'no-lifetime-without-nonce', CREATE, 'built')
        r = F(v, '0')
        ck.must(o, ~And(none(F(r, 'c_nonce')), some(F(r, 'c_nonce_expires_in'))), 'no-lifetime-without-nonce', CREATE, 'response', extra=(r,))
    for o, v in errs:
        ck.must(o, bad, 'consistent-response-built', CREATE, 'refused')
    ck.floor(len(oks), 1, 'building exits of ' + CREATE)
    r = ck.run_trait('Validatable', 'AccessTokenSuccessResponse', 'validate', ['self'])
    if r is not None:
        w = 'AccessTokenSuccessResponse::validate'
        s = P('self')
        bad = And(none(F(s, 'c_nonce')), some(F(s, 'c_nonce_expires_in')))
        oks, errs = ck.split(r)
        for o, v in oks:
            ck.must(o, ~bad, 'validate-reports', w, 'accepted')
        for o, v in errs:
            ck.must(o, bad, 'validate-reports-only', w, 'refused')
        ck.floor(len(errs), 1, 'refusing exits of ' + w)
        ck.floor(len(oks), 1, 'accepting exits of ' + w)


def C27(ck):
    secrets = [(S0(exp), 'expected user PIN'), (exp, 'expected user PIN'), (offcode, 'offer code')]
    whole = {offer, S0(offer), grants, pre, S0(pre), opts, S0(opts)}
    oks, errs = ck.split(outs(ck))
    comparisons = {S0(upr), upr}
    for o, v in errs:
        leak = None
        for x in leaves(v):
            if is_bool_term(x):
                continue
            for s, nm in secrets:
                if contains(x, lambda t: t is s):
                    leak = (nm, x)
            if x in whole:
                leak = ('value containing the secrets', x)
        ck.require(leak is None, 'no-secret-in-refusal', EVAL, '%s|%s' % (err_name(v), leak and leak[0]),
                   'refusal %s carries the %s: %s' % (err_name(v), leak and leak[0], leak and str(leak[1])[:200]) if leak else 'refusal %s' % err_name(v))
        # which refusal is given must not depend on a secret except through its comparison with the request
        for k, t, n in o.st.facts():
            for s, nm, mine in ((S0(exp), 'expected user PIN', S0(pin)), (offcode, 'offer code', code)):
                if not contains(t, lambda x: x is s):
                    continue
                cmp_ = contains(t, lambda x: x is mine or x.op == 'k') or (t is s or t.op == 'app' and t.a[0] == 'len') and (k == 'ge' and n <= 0 or k == 'le' and n >= 2 ** 64 - 1)
                ck.require(cmp_, 'secrets-only-compared', EVAL, nm, 'refusal %s depends on the %s through %s' % (err_name(v), nm, t))
    ck.floor(len(errs), 8, 'refusing exits of ' + EVAL)


def leaves(v):
    if v.op == 'adt':
        for _, x in v.a[2]:
            yield from leaves(x)
    elif v.op in ('tup', 'arr'):
        for x in v.a:
            yield from leaves(x)
    elif v.op == 'cat':
        for x in v.a:
            yield from leaves(x)
    else:
        yield v


def is_bool_term(x):
    return x.op in ('eq', 'cieq', 'eq0', 'isvar', 'not') or (x.op == 'c' and x.a[0] == 'bool')


RULES = dict(C01=C01, C02=C02, C03=C03, C04=C04, C05=C05, C07=C07, C27=C27)
