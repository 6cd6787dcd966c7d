"""Hash-consed abstract values (provenance terms)."""


class T:
    __slots__ = ('op', 'a', 'h', '_s')
    tab = {}

    def __new__(cls, op, *a):
        k = (op, a)
        r = cls.tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op = op
            r.a = a
            r.h = hash(k)
            r._s = None
            cls.tab[k] = r
        return r

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self._s is None:
            self._s = show(self)
        return self._s

    def __lt__(self, o):
        return repr(self) < repr(o)


def show(t):
    o, a = t.op, t.a
    if o == 'c':
        return repr(a[1]) if a[0] != 'int' else str(a[1])
    if o == 'p':
        return a[0]
    if o == 'fld':
        return '%r.%s%s' % (a[0], a[1] + '.' if a[1] else '', a[2])
    if o == 'adt':
        nm = a[0].split('::')[-1] + ('::' + a[1] if a[1] != a[0].split('::')[-1] else '')
        return nm + ('{%s}' % ', '.join('%s:%r' % (f, v) for f, v in a[2]) if a[2] else '')
    if o == 'app':
        return '%s(%s)' % (a[0].split('|')[0].replace('core::', '').replace('alloc::', ''), ', '.join(map(repr, a[1:])))
    if o == 'at':
        return '%r[%r]' % a
    if o == 'tup':
        return '(%s)' % ', '.join(map(repr, a))
    if o == 'arr':
        return '[%s]' % ', '.join(map(repr, a))
    if o == 'lin':
        return '(' + ' + '.join(['%s%r' % ('' if c == 1 else '%d*' % c, x) for x, c in a[1]] + [str(a[0])]) + ')'
    if o == 'cat':
        return 'cat(%s)' % ', '.join(map(repr, a))
    if o == 'clo':
        return 'clo<%s>(%s)' % (a[1], ', '.join(map(repr, a[2])))
    return '%s(%s)' % (o, ', '.join(map(repr, a)))


UNIT = T('tup')
TRUE = T('c', 'bool', True)
FALSE = T('c', 'bool', False)


def Int(n):
    return T('c', 'int', n)


def Str(s):
    return T('c', 'str', s)


def Bool(b):
    return TRUE if b else FALSE


def App(f, *a):
    return T('app', f, *a)


def is_int(t):
    return t.op == 'c' and t.a[0] == 'int'


def is_str(t):
    return t.op == 'c' and t.a[0] == 'str'


def is_const(t):
    return t.op == 'c'


OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
CFLOW = 'core::ops::control_flow::ControlFlow'
ORDERING = 'core::cmp::Ordering'
NONE = T('adt', OPTION, 'None', ())


def Some(x):
    return T('adt', OPTION, 'Some', (('0', x),))


def Ok(x):
    return T('adt', RESULT, 'Ok', (('0', x),))


def Err(x):
    return T('adt', RESULT, 'Err', (('0', x),))


def fld(b, v, f):
    """field f of variant v ('' for structs, tuples) of b"""
    if b.op == 'adt':
        if v and b.a[1] != v:
            return T('dead')
        for n, x in b.a[2]:
            if n == f:
                return x
        return T('dead')
    if b.op in ('tup', 'arr'):
        try:
            return b.a[int(f)]
        except (ValueError, IndexError):
            return T('dead')
    if b.op == 'clo':
        try:
            return b.a[2][int(f)]
        except (ValueError, IndexError):
            return T('dead')
    if b.op == 'upd':
        if b.a[2] == f and b.a[1] == v:
            return b.a[3]
        return fld(b.a[0], v, f)
    return T('fld', b, v, f)


def setfld(b, v, f, x):
    if b.op == 'adt':
        fs = tuple((n, x if n == f else y) for n, y in b.a[2])
        return T('adt', b.a[0], b.a[1], fs)
    if b.op in ('tup', 'arr'):
        l = list(b.a)
        l[int(f)] = x
        return T(b.op, *l)
    if b.op == 'clo':
        l = list(b.a[2])
        l[int(f)] = x
        return T('clo', b.a[0], b.a[1], tuple(l))
    if b.op == 'upd' and b.a[1] == v and b.a[2] == f:
        b = b.a[0]
    if fld(b, v, f) is x:
        return b
    return T('upd', b, v, f, x)


# ---------------------------------------------------------------- linear integers
def lin_parts(t):
    """(const, {atom: coef}) of an integer term"""
    if is_int(t):
        return t.a[1], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, m):
    m = {k: v for k, v in m.items() if v != 0}
    if not m:
        return Int(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1:
            return k
    return T('lin', c, tuple(sorted(m.items(), key=lambda kv: repr(kv[0]))))


def lin_add(a, b, s=1):
    c1, m1 = lin_parts(a)
    c2, m2 = lin_parts(b)
    m = dict(m1)
    for k, v in m2.items():
        m[k] = m.get(k, 0) + s * v
    return mk_lin(c1 + s * c2, m)


def lin_scale(a, n):
    c, m = lin_parts(a)
    return mk_lin(c * n, {k: v * n for k, v in m.items()})


def fresh_bv(*ts):
    """a bound variable that does not occur in ts"""
    n = 0
    for t in ts:
        for x in subterms(t):
            if x.op == 'bv':
                n = max(n, x.a[0] + 1)
    return T('bv', n)


def joined_text(seq, sep):
    """the texts of seq, one after the other; the characters of a text make up that text, their folded forms the folded text"""
    if is_str(sep) and sep.a[1] == '':
        if seq.op == 'app' and seq.a[0] == 'chars':
            return seq.a[1]
    return App('joined', seq, sep)


def mapseq(src, elem, body):
    """the sequence body[x] for each element x (written `elem` in body) of src"""
    if body is elem:
        return src
    if src.op == 'app' and src.a[0] in ('chars', 'bytes') and body.op == 'app' and body.a[0] in ('lower', 'upper') and body.a[1] is elem:
        x = src.a[1]
        return App(src.a[0], App(body.a[0], x.a[1] if x.op == 'app' and x.a[0] in ('lower', 'upper') else x))
    v = fresh_bv(body)
    return T('mapseq', src, v, subst(body, {elem: v}))


# ---------------------------------------------------------------- strings
def cat(parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if is_str(q):
                if q.a[1] == '':
                    continue
                if out and is_str(out[-1]):
                    out[-1] = Str(out[-1].a[1] + q.a[1])
                    continue
            out.append(q)
    if not out:
        return Str('')
    if len(out) == 1:
        return out[0]
    return T('cat', *out)


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """replace subterms (keys of m) by values"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a or t.op in ('c', 'p'):
        memo[t] = t
        return t
    na = tuple(subst(x, m, memo) for x in t.a)
    if na == t.a:
        r = t
    else:
        r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == 'fld':
        return fld(*a)
    if op == 'cat':
        return cat(a)
    if op == 'lin':
        r = Int(a[0])
        for x, c in a[1]:
            r = lin_add(r, lin_scale(x, c))
        return r
    if op == 'at':
        return at(*a)
    return T(op, *a)


def contains(t, pred, seen=None):
    """does any subterm satisfy pred"""
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        return any(contains(x, pred, seen) for x in t)
    if not isinstance(t, T):
        return False
    if t in seen:
        return False
    seen.add(t)
    if pred(t):
        return True
    return any(contains(x, pred, seen) for x in t.a)


def subterms(t, out=None):
    if out is None:
        out = set()
    if isinstance(t, tuple):
        for x in t:
            subterms(x, out)
        return out
    if not isinstance(t, T) or t in out:
        return out
    out.add(t)
    for x in t.a:
        subterms(x, out)
    return out


def at(src, k):
    """element of a sequence at key k (an int term or a loop key)"""
    if src.op == 'arr' and is_int(k) and 0 <= k.a[1] < len(src.a):
        return src.a[k.a[1]]
    if src.op == 'mapseq':
        return subst(src.a[2], {src.a[1]: at(src.a[0], k)})
    if src.op == 'slice' and (is_int(k) and (is_int(src.a[1]) or src.a[1].op in ('k', 'lin')) or k.op in ('k', 'lin')):
        return at(src.a[0], lin_add(src.a[1], k))
    if src.op == 'app' and src.a[0] == 'range':
        return lin_add(src.a[1], k)
    if src.op == 'app' and src.a[0] == 'windows':
        return T('arr', *[at(src.a[1], lin_add(k, Int(i))) for i in range(src.a[2].a[1])])
    if src.op == 'app' and src.a[0] == 'split' and is_int(k):
        s, d = src.a[1], src.a[2]
        return seg(s, d, k.a[1])
    if src.op == 'app' and src.a[0] == 'match_indices' and is_int(k) and is_str(src.a[2]):
        # behind the first k + 1 segments and k delimiters
        s, d = src.a[1], src.a[2]
        p = Int(k.a[1] * len(d.a[1].encode()))
        for i in range(k.a[1] + 1):
            p = lin_add(p, length(seg(s, d, i)))
        return T('tup', p, d)
    if src.op == 'app' and src.a[0] == 'splitn' and is_int(k):
        s, d, n = src.a[1], src.a[2], src.a[3].a[1]
        i = k.a[1]
        return seg(s, d, i) if i < n - 1 else rest(s, d, i)
    return T('at', src, k)


def seg(s, d, i):
    if s.op == 'app' and s.a[0] == 'rest' and s.a[2] is d:
        return seg(s.a[1], d, i + s.a[3].a[1])
    return App('seg', s, d, Int(i))


def rest(s, d, i):
    if i == 0:
        return s
    if s.op == 'app' and s.a[0] == 'rest' and s.a[2] is d:
        return rest(s.a[1], d, i + s.a[3].a[1])
    return App('rest', s, d, Int(i))


def nseg(s, d):
    """number of segments of s split at d, as an integer term (always >= 1)"""
    if is_str(s):
        return Int(len(s.a[1].split(d.a[1])))
    if s.op == 'app' and s.a[0] == 'rest' and s.a[2] is d:
        return lin_add(nseg(s.a[1], d), s.a[3], -1)
    if s.op == 'app' and s.a[0] == 'seg' and s.a[2] is d:
        return Int(1)
    return App('nseg', s, d)


def subseq(src, lo, hi):
    """the elements of src from lo up to hi; a part of a part is a part of the whole"""
    if lo is Int(0) and hi is length(src):
        return src
    if src.op == 'arr' and is_int(lo) and is_int(hi):
        return T('arr', *src.a[lo.a[1]:hi.a[1]])
    if src.op == 'slice':
        return T('slice', src.a[0], lin_add(src.a[1], lo), lin_add(src.a[1], hi))
    return T('slice', src, lo, hi)


def length(v):
    if v.op == 'arr':
        return Int(len(v.a))
    if v.op == 'c' and v.a[0] == 'bytes':
        return Int(len(v.a[1]))
    if v.op == 'c' and v.a[0] == 'str':
        return Int(len(v.a[1].encode()))
    if v.op == 'mapseq':
        return length(v.a[0])
    if v.op == 'rev':
        return length(v.a[0])
    if v.op == 'app' and v.a[0] == 'decimal':
        return App('digits', v.a[1])
    if v.op == 'app' and v.a[0] == 'chars' and v.a[1].op == 'app' and v.a[1].a[0] == 'decimal':
        return App('digits', v.a[1].a[1])  # digits, one byte each
    if v.op == 'app' and v.a[0] == 'bytes':
        return length(v.a[1])
    if v.op == 'app' and v.a[0] in ('strip_prefix', 'strip_suffix'):
        return lin_add(length(v.a[1]), length(v.a[2]), -1)
    if v.op == 'app' and v.a[0] == 'windows':
        return lin_add(length(v.a[1]), Int(1 - v.a[2].a[1]))
    if v.op == 'push':
        return lin_add(length(v.a[0]), Int(1))
    if v.op == 'app' and v.a[0] == 'range':
        return lin_add(v.a[2], v.a[1], -1)
    if v.op == 'slice':
        return lin_add(v.a[2], v.a[1], -1)
    if v.op == 'app' and v.a[0] == 'split':
        return nseg(v.a[1], v.a[2])
    if v.op == 'app' and v.a[0] in ('matches', 'match_indices'):
        return lin_add(nseg(v.a[1], v.a[2]), Int(1), -1)
    if v.op == 'app' and v.a[0] in ('sorted', 'rotated', 'swapped'):
        return length(v.a[1])
    if v.op == 'app' and v.a[0] in ('removed', 'swap_removed'):
        return lin_add(length(v.a[1]), Int(1), -1)
    if v.op == 'app' and v.a[0] == 'inserted':
        return lin_add(length(v.a[1]), Int(1))
    if v.op == 'app' and v.a[0] == 'dedup' and v.a[1].op == 'app' and v.a[1].a[0] == 'sorted':
        return length(App('setof', v.a[1].a[1]))
    return App('len', v)
