"""Obligations over analysis results.

A check is a list of obligations; each is decided for one exit (one abstract state) of one analysed function:
`entails` evaluates a condition in the state by the facts that the dataflow recorded on the path, splitting on
the few literals it left open. Three answers: discharged, violated, undecided (the path went through something
the analysis has no transfer function for and the obligation depends on it)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from terms import *
from state import *
from interp import Machine, Out, LoopRec, FOREVER
from models import Models
from ir import IR


def P(n):
    return T('p', n)


def F(b, *path):
    """field access: 'Some.0' style components are variant-qualified with 'V:f'"""
    for p in path:
        if ':' in p:
            v, f = p.split(':')
        else:
            v, f = '', p
        b = fld(b, v, f)
    return b


def S0(t):
    return fld(t, 'Some', '0')


# ------------------------------------------------------------------ conditions
class C:
    """a condition: op in lit, and, or, not, iff, true, false"""
    def __init__(self, op, *a):
        self.op, self.a = op, a

    def __and__(self, o):
        return C('and', self, o)

    def __or__(self, o):
        return C('or', self, o)

    def __invert__(self):
        return C('not', self)

    def lits(self):
        if self.op == 'lit':
            return [self.a[0]]
        if self.op in ('true', 'false'):
            return []
        return [l for x in self.a for l in x.lits()]

    def __repr__(self):
        if self.op == 'lit':
            return show_lit(self.a[0])
        if self.op in ('true', 'false'):
            return self.op
        if self.op == 'not':
            return 'not(%r)' % self.a[0]
        return '(%s)' % ((' %s ' % self.op).join(map(repr, self.a)))


def show_lit(b):
    if b.op == 'isvar':
        return '%s is %s' % (b.a[0], b.a[1])
    if b.op == 'eq':
        return '%s = %s' % b.a
    if b.op == 'cieq':
        return '%s =(any case) %s' % b.a
    if b.op == 'le0':
        return '%s <= 0' % b.a[0]
    if b.op == 'eq0':
        return '%s = 0' % b.a[0]
    if b.op == 'not':
        return 'not(%s)' % show_lit(b.a[0])
    return repr(b)


def B(b):
    if b.op == 'not':
        return ~B(b.a[0])
    if b.op == 'c':
        return C('true') if b.a[1] else C('false')
    return C('lit', b)


TT, FF = C('true'), C('false')


def And(*cs):
    cs = [c for c in cs if c.op != 'true']
    return C('and', *cs) if len(cs) > 1 else (cs[0] if cs else TT)


def Or(*cs):
    cs = [c for c in cs if c.op != 'false']
    return C('or', *cs) if len(cs) > 1 else (cs[0] if cs else FF)


def Iff(a, b):
    return C('iff', a, b)


def Imp(a, b):
    return Or(~a, b)


def isvar(t, v, uni):
    if t.op == 'adt':
        return TT if t.a[1] == v else FF
    return C('lit', T('isvar', t, v, tuple(uni)))


def some(t):
    return isvar(t, 'Some', ('None', 'Some'))


def none(t):
    return isvar(t, 'None', ('None', 'Some'))


def okv(t):
    return isvar(t, 'Ok', ('Ok', 'Err'))


def errv(t):
    return isvar(t, 'Err', ('Ok', 'Err'))


def eq(a, b):
    return B(Eq(a, b))


def inteq(a, b):
    return B(IntCmp('Eq', a, b))


def le(a, b):
    return B(IntCmp('Le', a, b))


def lt(a, b):
    return B(IntCmp('Lt', a, b))


def ev(st, c):
    """(value or None, first open literal)"""
    if c.op == 'true':
        return True, None
    if c.op == 'false':
        return False, None
    if c.op == 'lit':
        b = c.a[0]
        r = st.decide(b)
        return r, (b if r is None else None)
    if c.op == 'not':
        r, l = ev(st, c.a[0])
        return (None if r is None else not r), l
    if c.op == 'and':
        op = None
        for x in c.a:
            r, l = ev(st, x)
            if r is False:
                return False, None
            if r is None:
                # short circuit: later conjuncts may only make sense when this one holds
                return None, l
        return True, None
    if c.op == 'or':
        for x in c.a:
            r, l = ev(st, x)
            if r is True:
                return True, None
            if r is None:
                op = l
                # another disjunct may hold outright
                for y in c.a:
                    r2, _ = ev(st, y)
                    if r2 is True:
                        return True, None
                return None, op
        return False, None
    if c.op == 'iff':
        a, l = ev(st, c.a[0])
        b, l2 = ev(st, c.a[1])
        if a is None:
            return None, l
        if b is None:
            return None, l2
        return a == b, None
    raise AssertionError(c.op)


def entails(st, c, depth=12):
    """None when every concretisation satisfies c as far as the facts say; else a state where c is false"""
    r, l = ev(st, c)
    if r is True:
        return None
    if r is False:
        return st
    if depth == 0:
        return st
    for v in (True, False):
        s = st.copy()
        try:
            s.assume(l, v)
        except Dead:
            continue
        x = entails(s, c, depth - 1)
        if x is not None:
            return x
    return None


def feasible(st, c, depth=10):
    """a refinement of st in which c holds, or None"""
    return entails(st, ~c, depth)


# ------------------------------------------------------------------ values
def same(st, a, b, depth=8):
    """are the two values equal in st"""
    if a is b:
        return True
    if a in st.eqclass(b):
        return True
    if depth == 0:
        return False
    if b.op == 'adt' and a.op != 'adt':
        a, b = b, a
    if a.op == 'adt':
        if st.variant(b) != a.a[1]:
            # a fieldless or structural value of a struct type
            n = a.a[0].split('::')[-1]
            if a.a[1] != n or b.op == 'adt':
                return False
        v = '' if a.a[1] == a.a[0].split('::')[-1] and b.op != 'adt' and st.variant(b) is None else a.a[1]
        for f, x in a.a[2]:
            y = fld(b, v, f)
            if y.op == 'fld' and b.op == 'fld' or True:
                if not same(st, x, y, depth - 1):
                    return False
        return True
    if a.op in ('tup', 'arr') and b.op == a.op and len(a.a) == len(b.a):
        return all(same(st, x, y, depth - 1) for x, y in zip(a.a, b.a))
    if a.op == 'upd' or b.op == 'upd':
        return False
    if a.op == b.op and a.op in ('app', 'cat') and len(a.a) == len(b.a):
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                if not same(st, x, y, depth - 1):
                    return False
            elif x != y:
                return False
        return True
    va, vb = st.variant(a), st.variant(b)
    if va == 'None' and vb == 'None':
        return True
    return st.decide(Eq(a, b)) is True


def is_opaque(t):
    return t.op == 'app' and ('|' in t.a[0] and not t.a[0].startswith('json_de|') or t.a[0] in ('callv', 'unknown', 'mapget', 'oldvalue')) or t.op == 'unk'


def opaque_in(t):
    return {x for x in subterms(t) if is_opaque(x) or x.op == 'phi'}


def params_of(t):
    return {x for x in subterms(t) if x.op == 'p'}


def loop_carried(t):
    """whether a fact is about (a part of) a value a loop carries from one iteration to the next"""
    while t.op == 'fld':
        t = t.a[0]
    if t.op in ('eq', 'cieq'):
        return any(x.op == 'phi' for x in subterms(t))
    return t.op == 'phi'


def within(st, t):
    """whether a bound only says that a loop left early was left at one of the positions of its list"""
    m = lin_parts(t)[1]
    return any(r.src is not None and set(m) <= {r.key, length(r.src)} for r in st.foralls)


def fact_terms(st):
    for f in st.facts():
        yield f[1]
    for r in st.foralls:
        yield r.src
        for e in r.edges:
            for f in e.facts:
                yield f[1]


class Check:
    """collects obligations of one property"""

    def __init__(self, pid, ir):
        self.pid = pid
        self.ir = ir
        self.m = Machine(ir, Models(ir))
        self.obl = []        # dicts
        self.viol = {}       # key -> text
        self.undec = {}
        self.shaky = None    # a reason for which nothing found from here on is a violation
        self.functions = {}
        self.exits = 0
        self._cache = {}

    # ---------------------------------------------------------- obligations
    def ok(self, rule, where, detail=''):
        self.obl.append(dict(rule=rule, where=where, status='discharged', detail=detail))

    def violate(self, rule, where, cls, detail):
        if self.shaky:
            return self.undecided(rule, where, '%s ;; %s' % (self.shaky, detail))
        self.obl.append(dict(rule=rule, where=where, status='violated', detail=detail))
        self.viol.setdefault('%s|%s|%s' % (rule, where, cls), detail)

    def undecided(self, rule, where, detail):
        self.obl.append(dict(rule=rule, where=where, status='undecided', detail=detail))
        self.undec.setdefault('%s|%s' % (rule, where), detail)

    def require(self, cond, rule, where, cls, detail, undecidable=None):
        """cond: bool"""
        if cond:
            self.ok(rule, where, detail if len(self.obl) < 40 else '')
        elif undecidable:
            self.undecided(rule, where, '%s (%s)' % (detail, undecidable))
        else:
            self.violate(rule, where, cls, detail)
        return cond

    def must(self, o, cond, rule, where, cls='', detail='', extra=()):
        """exit o must entail cond"""
        st = o.st if isinstance(o, Out) else o
        bad = entails(st, cond)
        if bad is None:
            self.ok(rule, where, repr(cond)[:400])
            return True
        why = self.taint(st, [t for l in cond.lits() for t in l.a if isinstance(t, T)] + list(extra))
        d = detail + ' -- not entailed on this exit: ' + repr(cond)[:900] + ' ;; path facts: ' + show_facts(bad)
        if why:
            self.undecided(rule, where, d + ' ;; ' + why)
        else:
            self.violate(rule, where, cls, d)
        return False

    def taint(self, st, terms):
        """a reason for which the lack of a fact about `terms` proves nothing, or None"""
        if st.unk:
            return 'unmodelled operations on the path: %s' % sorted(map(str, st.unk))[:4]
        want = set()
        for t in terms:
            for x in subterms(t):
                if x.op in ('fld', 'at') or x.op == 'p':
                    want.add(x)
        deep = {x for x in want if x.op != 'p'} or want
        for t in fact_terms(st):
            for x in opaque_in(t):
                s = subterms(x)
                if any(w in s for w in deep):
                    return 'decision through an unmodelled function: %s' % str(x)[:200]
        for r in st.foralls:
            if r.src is not None and any(x.op == 'phi' or x.op == 'k' and x is not r.key for x in subterms(r.src)):
                return 'loop over a list built in another loop: %s' % str(r.src)[:200]
            if any(k == 'atom' and loop_carried(t) for e in r.edges for k, t, v in e.facts):
                return 'loop comparing with a loop-carried value'
            for e in r.edges:
                for i in e.foralls:
                    if any(v.op not in ('c', 'lin') for d in i.edges for v in d.upd.values()):
                        return 'loop inside a loop that carries a value from one iteration to the next'
        for k, t, v in st.facts():
            if k in ('le', 'ge') and any(x.op in ('phi', 'k') for x in subterms(t)) and not within(st, t):
                return 'decision through a loop-carried value: %s' % str(t)[:200]
            if k in ('atom', 'var') and loop_carried(t):
                return 'decision through a loop-carried value: %s' % str(t)[:200]
        return None

    # ---------------------------------------------------------- analysis
    def find(self, suffix):
        c = [r for r in self.ir.roots if r['path'] == suffix or r['path'].endswith('::' + suffix)]
        return c[0] if len(c) == 1 else None

    def run_root(self, r, args, where=None):
        """exits of a function, reporting undecided ones"""
        key = (r['id'], tuple(args))
        where = where or r['path']
        if key in self._cache:
            return self._cache[key]
        try:
            outs = self.m.analyse(r['id'], args)
        except Undecided as e:
            self.undecided('analysis', where, 'not analysed: %s' % e.why)
            outs = []
        res = []
        for o in outs:
            if o.kind == 'undec':
                self.undecided('analysis', where, 'path not analysed: %s' % (o.val,))
            else:
                res.append(o)
        self.functions[r['path']] = dict(exits=len(res), span=r.get('span'))
        self.exits += len(res)
        self._cache[key] = res
        return res

    def run(self, suffix, *names):
        r = self.find(suffix)
        if r is None:
            self.undecided('anchor', suffix, 'public function %s not found (or not unique)' % suffix)
            return []
        if self.ir.bodies[r['id']]['argc'] != len(names):
            self.undecided('anchor', suffix, 'function %s takes %d arguments, %d expected' % (suffix, self.ir.bodies[r['id']]['argc'], len(names)))
            return []
        return self.run_root(r, [P(n) if isinstance(n, str) else n for n in names], suffix)

    def run_trait(self, trait, self_ty, name, args, tparam=None, optional=False):
        c = self.ir.trait_impl(trait, self_ty, name, tparam)
        w = '<%s as %s%s>::%s' % (self_ty, trait, '<%s>' % tparam if tparam else '', name)
        if len(c) != 1:
            if not optional:
                self.undecided('anchor', w, '%s: %d implementations found' % (w, len(c)))
            return None
        return self.run_root(c[0], [P(n) if isinstance(n, str) else n for n in args], w)

    def adt(self, suffix):
        c = [p for p in self.ir.adts if p == suffix or p.endswith('::' + suffix)]
        return c[0] if len(c) == 1 else None

    def universe(self, suffix):
        a = self.adt(suffix)
        if a is None:
            self.undecided('anchor', suffix, 'type %s not found' % suffix)
            return ('?',)
        return tuple(v['n'] for v in self.ir.adts[a]['v'])

    # ---------------------------------------------------------- results
    def split(self, outs):
        """(ok values, error values) of Result-returning exits: lists of (out, payload)"""
        oks, errs = [], []
        for o in outs:
            if o.kind != 'ret':
                continue
            v = o.val
            k = o.st.variant(v)
            if k == 'Ok':
                oks.append((o, fld(v, 'Ok', '0')))
            elif k == 'Err':
                errs.append((o, fld(v, 'Err', '0')))
            else:
                # result passed through: both are possible
                for k, l in (('Ok', oks), ('Err', errs)):
                    s = o.st.copy()
                    try:
                        s.set_variant(v, k)
                    except Dead:
                        continue
                    l.append((Out('ret', s, v), fld(v, k, '0')))
        return oks, errs

    def floor(self, n, want, what):
        """an instance count must not fall below what was confirmed by hand; fewer instances can be another way of writing
        the same thing, none at all is a behaviour that is gone"""
        self.require(n >= want, 'floor', what, 'count', '%s: %d found, at least %d expected' % (what, n, want),
                     'parts not analysed' if self.undec or n else None)

    def value(self, o, got, exp, rule, where, cls='', detail=''):
        st = o.st if isinstance(o, Out) else o
        if same(st, got, exp):
            self.ok(rule, where, '%s = %s' % (detail, str(exp)[:200]))
            return True
        d = '%s: got %s, expected %s ;; path facts: %s' % (detail, str(got)[:500], str(exp)[:500], show_facts(st))
        op = opaque_in(got) - opaque_in(exp)
        if st.unk or any(params_of(x) & params_of(exp) for x in op):
            self.undecided(rule, where, d)
        else:
            self.violate(rule, where, cls, d)
        return False


def show_facts(st, lim=900):
    out = []
    for k, t, v in sorted(st.facts(), key=lambda f: (len(repr(f[1])), repr(f))):
        if k == 'var':
            out.append('%s is %s' % (t, v))
        elif k == 'nvar':
            out.append('%s is not %s' % (t, v))
        elif k == 'atom':
            out.append(('' if v else 'not ') + '[%s]' % show_lit(t))
        elif k == 'le' and abs(v) < 10 ** 18:
            out.append('%s <= %s' % (t, v))
        elif k == 'ge' and abs(v) < 10 ** 18:
            out.append('%s >= %s' % (t, v))
    return ('; '.join(x for x in out if len(x) < 300))[:lim]


def err_name(v):
    """enum path of an error value, e.g. JwtError/NonceMismatch"""
    return v.a[1] if v.op == 'adt' else None


def leaf_err(v):
    """strip wrapping variants whose only field is another error value"""
    chain = []
    while v.op == 'adt':
        chain.append('%s::%s' % (v.a[0].split('::')[-1], v.a[1]))
        if len(v.a[2]) == 1 and v.a[2][0][0] == '0' and v.a[2][0][1].op == 'adt' and v.a[2][0][1].a[0].endswith('Error'):
            v = v.a[2][0][1]
        else:
            break
    return v, chain
