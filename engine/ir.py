"""Loading of the MIR dump and static structure (types, ADTs, control-flow components)."""
import json, re, sys

sys.setrecursionlimit(20000)


PASSING = ('next', 'into_iter', 'iter', 'branch', 'from_residual', 'from_output', 'map', 'map_err', 'ok_or', 'ok_or_else', 'clone')


def walk(x):
    if isinstance(x, (list, tuple)):
        yield x
        for y in x:
            yield from walk(y)


# where each type of the crate lives; a type found elsewhere under the same unique name is the same type moved
HOMES = (
    'access_token::AccessToken',
    'access_token::AccessTokenRequest',
    'access_token::AccessTokenSuccessResponse',
    'access_token::EvaluateAccessTokenRequestOptions',
    'access_token::GrantType',
    'access_token::error::AccessTokenError',
    'access_token::error_response::AccessTokenErrorCode',
    'credential_issuer::AuthorizedCodeFlow',
    'credential_issuer::CNonce',
    'credential_issuer::CNonceOptions',
    'credential_issuer::CredentialIssuer',
    'credential_issuer::CredentialIssuerEvaluateRequestResponse',
    'credential_issuer::CredentialOffer',
    'credential_issuer::CredentialOfferGrants',
    'credential_issuer::CredentialOrAcceptanceToken',
    'credential_issuer::CredentialOrId',
    'credential_issuer::CredentialOrIds',
    'credential_issuer::CredentialSuccessResponse',
    'credential_issuer::EvaluateCredentialRequestOptions',
    'credential_issuer::PreAuthorizedCodeFlow',
    'credential_issuer::PreEvaluateCredentialRequestResponse',
    'credential_issuer::ProofOfPossession',
    'credential_issuer::error::CredentialIssuerError',
    'credential_issuer::error_code::CredentialIssuerErrorCode',
    'error::ErrorInformation',
    'error_response::ErrorResponse',
    'jwt::ProofJwt',
    'jwt::ProofJwtAdditionalHeader',
    'jwt::ProofJwtAlgorithm',
    'jwt::ProofJwtBody',
    'jwt::ProofJwtHeader',
    'jwt::error::JwtError',
    'return_object::ReturnObject',
    'types::authorization_server_metadata::AuthorizationServerMetadata',
    'types::credential::CredentialFormatProfile',
    'types::credential::CredentialFormatProfileOrEncoded',
    'types::credential::CredentialSubject',
    'types::credential::CredentialSubjectDisplay',
    'types::credential::LinkedDataContext',
    'types::credential_issuer_metadata::CredentialIssuerMetadata',
    'types::credential_issuer_metadata::CredentialSupported',
    'types::credential_issuer_metadata::DisplayLogo',
    'types::credential_issuer_metadata::DisplayProperties',
    'types::credential_request::CredentialRequest',
    'types::credential_request::CredentialRequestProof',
    'types::token_type::AccessTokenType',
    'validate::ValidationError',
)


def load(path):
    """the dump, with types that only moved to another module (and inherent functions written in another module than
    their type) named as if they had not"""
    text = open(path).read()
    d = json.loads(text)
    local = [p for p, a in d['adts'].items() if a.get('local')]
    names = {}
    for p in local:
        names.setdefault(p.split('::')[-1], []).append(p)
    subst = {}
    for h in HOMES:
        c = names.get(h.split('::')[-1], [])
        if h not in d['adts'] and len(c) == 1 and re.fullmatch(r'[\w:]+', c[0]) and c[0] not in HOMES:
            subst[c[0]] = h
    new = text
    if subst:
        new = re.sub(r'(?<![\w:])(?:%s)(?!\w)' % '|'.join(re.escape(k) for k in sorted(subst, key=len, reverse=True)), lambda m: subst[m.group()], new)
    own = {subst.get(p, p) for p in local}
    new = re.sub(r'(?<![\w:])(?:\w+::)*<impl ((?:\w+::)*\w+)>::', lambda m: m.group(1) + '::' if m.group(1) in own else m.group(), new)
    return d if new == text else json.loads(new)


class IR:
    def __init__(self, path):
        d = load(path)
        self.d = d
        self.types = d['types']
        self.adts = d['adts']
        self.bodies = d['bodies']
        self.roots = d['roots']
        self.extra = d['extra']
        self.statics = d['statics']
        self.impls = d['impls']
        self.crate = d['crate']
        self.signed()
        self._loops = {}
        self.by_path = {}
        for r in self.roots:
            self.by_path.setdefault(r['path'], []).append(r)

    def signed(self):
        """discriminants and switch arms of signed types, which the dump has as bit patterns, as numbers"""
        bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}
        for a in self.adts.values():
            m = re.match(r'Fixed\(I(\d+), true\)', a['repr'])
            n = int(m.group(1)) if m else 64 if not a['repr'].startswith('Fixed') else None
            for v in a['v']:
                if n and v['d'] is not None and v['d'] >= 1 << (n - 1):
                    v['d'] -= 1 << n
        for b in self.bodies:
            for blk in (b or {}).get('blocks', ()):
                if blk and blk['t'][0] == 'switch':
                    n = bits.get(self.types[blk['t'][4]]['s'])
                    if n:
                        for arm in blk['t'][2]:
                            if arm[0] >= 1 << (n - 1):
                                arm[0] -= 1 << n

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]['s']

    def root(self, suffix):
        """the unique root whose path equals suffix or ends with ::suffix"""
        c = [r for r in self.roots if r['path'] == suffix or r['path'].endswith('::' + suffix)]
        return c[0] if len(c) == 1 else None

    def trait_impl(self, trait, self_sub, name, args=None):
        """root implementing trait method `name` for a self type whose string ends with self_sub"""
        out = []
        for r in self.roots:
            if r['name'] != name or 'impl_trait' not in r:
                continue
            if not (r['impl_trait'] == trait or r['impl_trait'].endswith('::' + trait)):
                continue
            s = self.types[r['impl_self']]['s']
            if s == self_sub or s.endswith('::' + self_sub):
                if args is None or args in re.sub(r"'\w+ ?", '', r['impl_trait_full']):
                    out.append(r)
        return out

    # ------------------------------------------------------------- census
    def constructed(self, bid, adt):
        """variants of adt that the functions reachable from body bid construct; None when some callee without a body
        could hand out a value of it (its result type mentions adt)"""
        seen, todo, out = set(), [bid], set()
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            body = self.bodies[b]
            for blk in body['blocks']:
                if not blk:
                    continue
                for s in blk['s']:
                    if s[0] == '=':
                        for x in walk(s[2]):
                            if x and x[0] == 'adt' and x[1] == adt:
                                out.add(x[3])
                            elif x and x[0] == 'cadt' and x[1] == adt:
                                out.add(x[3])
                            elif x and x[0] in ('clo', 'closure') and len(x) > 1 and isinstance(x[1], int):
                                todo.append(x[1])
                if blk['t'][0] == 'call':
                    f = blk['t'][1]
                    if isinstance(f, dict) and 'body' in f:
                        todo.append(f['body'])
                    elif isinstance(f, dict):
                        dty = blk['t'][4]
                        if dty is not None and adt in self.types[dty]['s'] and f.get('name') not in PASSING:
                            return None
        return out

    # ------------------------------------------------------------- types
    def peel(self, i):
        """strip references and boxes"""
        while True:
            t = self.types[i]
            if t['k'] in ('ref', 'ptr'):
                i = t['a'][0]
            elif t.get('box'):
                i = t['a'][0]
            else:
                return i

    def variants(self, adt):
        return self.adts[adt]['v']

    def variant_by_discr(self, adt, v):
        vs = self.adts[adt]['v']
        for i, x in enumerate(vs):
            d = x['d'] if x['d'] is not None else i
            if d == v:
                return x['n']
        return None

    def discr_of(self, adt, name):
        for i, x in enumerate(self.adts[adt]['v']):
            if x['n'] == name:
                return x['d'] if x['d'] is not None else i
        return None

    # ------------------------------------------------------------- CFG
    @staticmethod
    def succ(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [a[1] for a in t[2]] + [t[3]]
        if k == 'drop':
            return [t[1]]
        if k == 'assert':
            return [t[3]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    def loops(self, bid):
        """header -> frozenset(region) for every (nested) loop of the body"""
        if bid in self._loops:
            return self._loops[bid]
        blocks = self.bodies[bid]['blocks']
        g = {i: self.succ(b['t']) for i, b in enumerate(blocks) if b is not None}
        out = {}

        def rec(nodes, entries):
            for comp in sccs({n: [s for s in g[n] if s in nodes] for n in nodes}):
                c = set(comp)
                if len(c) == 1 and comp[0] not in g[comp[0]]:
                    continue
                heads = [n for n in c if n in entries or any(n in g[p] for p in g if p not in c and p in reach)]
                if not heads:
                    heads = [min(c)]
                h = heads[0]
                out[h] = frozenset(c)
                rec(c - {h}, {s for s in g[h] if s in c})

        # reachable
        reach = set()
        st = [0]
        while st:
            n = st.pop()
            if n in reach or n not in g:
                continue
            reach.add(n)
            st.extend(g[n])
        g = {n: [s for s in g[n] if s in reach] for n in reach}
        rec(set(reach), {0})
        self._loops[bid] = out
        return out


def sccs(g):
    """Tarjan, iterative"""
    idx = {}
    low = {}
    on = set()
    stack = []
    res = []
    n = [0]
    for root in sorted(g):
        if root in idx:
            continue
        work = [(root, iter(g[root]))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in g:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = stack.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                res.append(c)
    return res
