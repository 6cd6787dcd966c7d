"""Abstract states: cells, variant facts, boolean facts, interval facts on linear forms, loop summaries."""
from math import gcd
from terms import *

INF = None


class Dead(Exception):
    """the abstract state is unsatisfiable"""


class Undecided(Exception):
    def __init__(self, why):
        self.why = why


class State:
    __slots__ = ('cells', 'var', 'nvar', 'atoms', 'bnd', 'foralls', 'exists', 'log', 'nnow', 'nframe', 'nloop', 'unk', 'trail', 'exh', 'modes', 'kq')

    def __init__(self):
        self.cells = {}
        self.var = {}
        self.nvar = {}
        self.atoms = {}
        self.bnd = {}
        self.foralls = ()
        self.exists = ()
        self.log = ()
        self.nnow = 0
        self.nframe = 0
        self.nloop = 0
        self.unk = frozenset()
        self.trail = ()
        self.exh = frozenset()
        self.modes = ()
        self.kq = ()

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.var = dict(self.var)
        s.nvar = dict(self.nvar)
        s.atoms = dict(self.atoms)
        s.bnd = dict(self.bnd)
        for k in ('foralls', 'exists', 'log', 'nnow', 'nframe', 'nloop', 'unk', 'trail', 'exh', 'modes', 'kq'):
            setattr(s, k, getattr(self, k))
        return s

    # --------------------------------------------------------- variants
    def variant(self, t):
        if t.op == 'adt':
            return t.a[1]
        if t.op == 'upd':
            return self.variant(t.a[0])
        return self.var.get(t)

    def set_variant(self, t, v, universe=None):
        """assume t is variant v; raises Dead"""
        c = self.variant(t)
        if c is not None:
            if c != v:
                raise Dead()
            return
        if v in self.nvar.get(t, ()):
            raise Dead()
        while t.op == 'upd':
            t = t.a[0]
        self.var[t] = v

    def exclude(self, t, v, universe):
        c = self.variant(t)
        if c is not None:
            if c == v:
                raise Dead()
            return
        while t.op == 'upd':
            t = t.a[0]
        n = self.nvar.get(t, frozenset()) | {v}
        left = [x for x in universe if x not in n]
        if not left:
            raise Dead()
        if len(left) == 1:
            self.var[t] = left[0]
        self.nvar[t] = n

    # --------------------------------------------------------- linear facts
    @staticmethod
    def homog(m):
        """normalised key of a homogeneous linear form: (key, factor) with form = factor*key"""
        it = sorted(m.items(), key=lambda kv: repr(kv[0]))
        g = 0
        for _, c in it:
            g = gcd(g, abs(c))
        f = g if it[0][1] > 0 else -g
        return tuple((x, c // f) for x, c in it), f

    def lin_range(self, t):
        """interval of an integer term"""
        c, m = lin_parts(t)
        if not m:
            return c, c
        key, f = self.homog(m)
        lo, hi = self._key_range(key)
        if f < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        f = abs(f)
        return (None if lo is None else lo * f + c), (None if hi is None else hi * f + c)

    def _key_range(self, key, depth=0):
        lo, hi = self.bnd.get(key, (None, None))
        # implicit bounds from single atoms
        l2 = h2 = 0
        for x, c in key:
            xl, xh = self._atom_range(x) if (len(key) > 1 or True) else (None, None)
            if len(key) == 1:
                a, b = xl, xh
            else:
                kl, kh = self.bnd.get(((x, 1),), (None, None))
                a = xl if kl is None else (kl if xl is None else max(xl, kl))
                b = xh if kh is None else (kh if xh is None else min(xh, kh))
            if c < 0:
                a, b = b, a
            l2 = None if (l2 is None or a is None) else l2 + a * c
            h2 = None if (h2 is None or b is None) else h2 + b * c
        if l2 is not None and (lo is None or l2 > lo):
            lo = l2
        if h2 is not None and (hi is None or h2 < hi):
            hi = h2
        # combination with one recorded form that shares an atom
        many = depth < 3 and self.rounded()
        if depth < (3 if many else 1) and (lo is None or hi is None or lo != hi):
            kd = dict(key)
            for k2, (l, h) in list(self.bnd.items()):
                if k2 == key or len(k2) > (6 if many else 4) or len(k2) < 2 and len(key) < 2:
                    continue
                sg = None
                for x, cc in k2:
                    if x in kd:
                        q = kd[x]
                        if q % cc == 0:
                            sg = q // cc
                            break
                if sg is None:
                    continue
                rem = dict(kd)
                for x, cc in k2:
                    rem[x] = rem.get(x, 0) - sg * cc
                rem = {x: cc for x, cc in rem.items() if cc}
                if len(rem) > len(kd):
                    continue
                if not rem:
                    rl = rh = 0
                else:
                    rk, f = self.homog(rem)
                    rl, rh = self._key_range(rk, depth + 1)
                    if f < 0:
                        rl, rh = (None if rh is None else -rh), (None if rl is None else -rl)
                    rl = None if rl is None else rl * abs(f)
                    rh = None if rh is None else rh * abs(f)
                if sg < 0:
                    l, h = (None if h is None else -h), (None if l is None else -l)
                l = None if l is None else l * abs(sg)
                h = None if h is None else h * abs(sg)
                if l is not None and rl is not None and (lo is None or l + rl > lo):
                    lo = l + rl
                if h is not None and rh is not None and (hi is None or h + rh < hi):
                    hi = h + rh
        return lo, hi

    def rounded(self):
        """something was rounded to whole units: two quantities are then compared through four"""
        return any(x.op == 'app' and x.a[0] == 'floordiv' for k in self.bnd for x, c in k)

    @staticmethod
    def _diffs(key, l, h):
        (x, a), (y, b) = key
        if a == 1 and b == -1:
            yield x, y, l, h
            yield y, x, (None if h is None else -h), (None if l is None else -l)

    def _atom_range(self, x):
        if x.op == 'app':
            f = x.a[0]
            if f == 'len' and x.a[1].op == 'app' and x.a[1].a[0] == 'setof':
                return 0, None
            if f == 'len':
                r = self.rep(x.a[1])
                if r.op == 'c' and r.a[0] in ('str', 'bytes'):
                    n = length(r)
                    return n.a[1], n.a[1]
                return 0, None
            if f in ('count', 'xordiff', 'absdiff'):
                return 0, None
            if f == 'nseg' and x.a[1].op == 'cat' and is_str(x.a[2]) and len(x.a[2].a[1]) == 1:
                # every literal occurrence of the separator splits
                return 1 + sum(y.a[1].count(x.a[2].a[1]) for y in x.a[1].a if is_str(y)), None
            if f in ('nseg', 'digits'):
                return 1, None
            if f == 'bits':
                return 0, 128
            if f == 'ilog10':
                return 0, 19
            if f == 'b2i':
                return 0, 1
        if x.op == 'k':
            return 0, None
        return None, None

    def assume_le(self, t, n=0):
        """assume integer term t <= n"""
        c, m = lin_parts(t)
        if not m:
            if c > n:
                raise Dead()
            return
        # form f*key + c <= n
        key, f = self.homog(m)
        lo, hi = self.bnd.get(key, (None, None))
        if f > 0:
            b = (n - c) // f
            hi = b if hi is None else min(hi, b)
        else:
            q = n - c
            b = -(q // -f)  # key >= ceil(-(n-c)/|f|)
            lo = b if lo is None else max(lo, b)
        self.bnd[key] = (lo, hi)
        rl, rh = self._key_range(key)
        holes = self._holes(key)
        if holes:
            while rl is not None and rl in holes:
                rl += 1
                self.bnd[key] = (rl, self.bnd[key][1])
            while rh is not None and rh in holes:
                rh -= 1
                self.bnd[key] = (self.bnd[key][0], rh)
        if rl is not None and rh is not None and rl > rh:
            raise Dead()

    def _holes(self, key):
        """values that the form is known not to have"""
        out = set()
        for a, v in self.atoms.items():
            if not v and a.op == 'eq0':
                c, m = lin_parts(a.a[0])
                k2, f = self.homog(m)
                if k2 == key and c % f == 0:
                    out.add(-c // f)
        return out

    def decide_le(self, t, n=0):
        lo, hi = self.lin_range(t)
        if hi is not None and hi <= n:
            return True
        if lo is not None and lo > n:
            return False
        return None

    # --------------------------------------------------------- boolean atoms
    def rep(self, t):
        """representative constant of t through assumed equalities"""
        if t.op == 'c' or t.op == 'adt':
            return t
        for a, v in self.atoms.items():
            if v and a.op == 'eq':
                if a.a[0] is t and a.a[1].op == 'c':
                    return a.a[1]
                if a.a[1] is t and a.a[0].op == 'c':
                    return a.a[0]
        return t

    def eqclass(self, t):
        out = {t}
        ch = True
        while ch:
            ch = False
            for a, v in self.atoms.items():
                if v and a.op == 'eq':
                    x, y = a.a
                    if (x in out) != (y in out):
                        out.add(x)
                        out.add(y)
                        ch = True
        return out

    def decide(self, b):
        """truth of a boolean term, or None"""
        if b.op == 'c':
            return bool(b.a[1])
        if b.op == 'not':
            r = self.decide(b.a[0])
            return None if r is None else not r
        if b.op == 'le0':
            return self.decide_le(b.a[0])
        if b.op == 'eq0':
            lo, hi = self.lin_range(b.a[0])
            if lo == 0 and hi == 0:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            r = self.atoms.get(b)
            if r is None and b.a[0].op == 'lin' and b.a[0].a[0] == 0 and len(b.a[0].a[1]) == 2:
                (p, i), (q, j) = b.a[0].a[1]
                if i + j == 0 and abs(i) == 1 and p.op == 'app' and q.op == 'app' and p.a[0] == 'len' and q.a[0] == 'len' and q.a[1] in self.eqclass(p.a[1]):
                    return True
            return r
        if b.op == 'isvar':
            t, v = b.a[0], b.a[1]
            c = self.variant(t)
            if c is not None:
                return c == v
            if v in self.nvar.get(t, ()):
                return False
            return None
        if b in self.atoms:
            return self.atoms[b]
        if b.op == 'app' and b.a[0] in ('starts_with', 'ends_with') and len(b.a) == 3:
            cx = self.eqclass(b.a[1])
            if b.a[2] in cx:
                return True
            for t in cx:
                if is_str(t) and is_str(b.a[2]):
                    return t.a[1].startswith(b.a[2].a[1]) if b.a[0] == 'starts_with' else t.a[1].endswith(b.a[2].a[1])
            if b.a[0] == 'starts_with' and is_str(b.a[2]) and b.a[2].a[1]:
                for t in cx:
                    r = self.begins(t, b.a[2].a[1])
                    if r is not None:
                        return r
            return None
        if b.op == 'eq':
            x, y = b.a
            cx = self.eqclass(x)
            if y in cx:
                return True
            cy = self.eqclass(y)
            kx = [t for t in cx if t.op == 'c']
            ky = [t for t in cy if t.op == 'c']
            if kx and ky and kx[0] is not ky[0]:
                return False
            for p, q in ((cx, ky), (cy, kx)):
                if q and is_str(q[0]):
                    n = length(q[0]).a[1]
                    for t in p:
                        if t.op in ('p', 'f', 'app'):
                            lo, hi = self.bnd.get(((App('len', t), 1),), (None, None))
                            if lo is not None and lo > n or hi is not None and hi < n:
                                return False
            for a, v in self.atoms.items():
                if not v and a.op == 'eq' and ((a.a[0] in cx and a.a[1] in cy) or (a.a[1] in cx and a.a[0] in cy)):
                    return False
            # case-insensitive knowledge: ci(x,"jwt") false => x != any casing
            for p, q in ((cx, ky), (cy, kx)):
                if q and is_str(q[0]):
                    for t in p:
                        w = self.atoms.get(T('cieq', t, Str(q[0].a[1].lower())))
                        if w is False:
                            return False
                        for a, v in self.atoms.items():
                            if v and a.op == 'cieq' and a.a[0] is t and a.a[1].a[1] != q[0].a[1].lower():
                                return False
            return self.elementwise(x, y)
        if b.op == 'cieq':
            for t in self.eqclass(b.a[0]):
                if is_str(t):
                    return t.a[1].lower() == b.a[1].a[1]
                v = self.atoms.get(T('cieq', t, b.a[1]))
                if v is not None:
                    return v
            for a, v in self.atoms.items():
                if v and a.op == 'cieq' and a.a[0] is b.a[0] and a.a[1] is not b.a[1]:
                    return False
            return self.folded(b.a[0], b.a[1].a[1])
        return None

    def begins(self, x, c):
        """whether the text x starts with the text c, from what is known of its length, its first bytes or its parts"""
        n = length(Str(c)).a[1]
        lo, hi = self.bnd.get(((App('len', x), 1),), (None, None))
        if hi is not None and hi < n:
            return False
        for a, v in self.atoms.items():
            if a.op == 'app' and a.a[0] == 'starts_with' and a.a[1] is x and v and is_str(a.a[2]):
                k = a.a[2].a[1]
                if k.startswith(c):
                    return True
                if not c.startswith(k):
                    return False
            elif a.op == 'app' and a.a[0] == 'char_boundary' and a.a[1] is x and v is False:
                # the end of what x would start with is one
                if all(q is Int(0) or q is Int(n) for q in a.a[2:]):
                    return False
            elif a.op == 'eq':
                for p, q in (a.a, a.a[::-1]):
                    if p.op == 'app' and p.a[0] == 'substr' and p.a[1] is x and p.a[2] is Int(0) and is_str(q):
                        k = q.a[1]
                        if v and (k.startswith(c) or not c.startswith(k)):
                            return k.startswith(c)
                        if v is False and k == c and p.a[3] is Int(n):
                            return False
        d = c[-1]
        if d not in c[:-1]:
            # up to a separator that occurs nowhere before: the first part is what comes before it, and another part follows
            q = self.decide(Eq(App('seg', x, Str(d), Int(0)), Str(c[:-1])))
            lo, hi = self.bnd.get(((App('nseg', x, Str(d)), 1),), (None, None))
            if q is False or hi is not None and hi <= 1:
                return False
            if q and lo is not None and lo >= 2:
                return True
        return None

    def samelen(self, x, y):
        d = lin_add(length(x), length(y), -1)
        return self.lin_range(d) if not is_int(d) else (d.a[1], d.a[1])

    def affixes(self, x, y):
        """equality of two texts from what is known of one starting or ending with the other"""
        for f in ('starts_with', 'ends_with'):
            for p, q in ((x, y), (y, x)):
                v = self.atoms.get(App(f, p, q))
                if v is False:
                    return False
                if v and self.samelen(p, q) == (0, 0):
                    return True
                if v and self.decide(IntCmp('Eq', length(p), length(q))) is False:
                    return False
        return None

    def folded(self, x, c):
        """whether the text x is c in some casing, from what is known of its length and of its characters one by one"""
        lo, hi = self.lin_range(length(x))
        if lo is not None and lo > len(c) or hi is not None and hi < len(c):
            return False
        known = set()
        for a, v in self.atoms.items():
            if a.op != 'eq':
                continue
            for p, q in (a.a, a.a[::-1]):
                p, k = caseless(p)
                if p is None or p.op != 'at' or textof(p.a[0]) is not x or not is_int(p.a[1]) or p.a[1].a[1] >= len(c):
                    continue
                i = p.a[1].a[1]
                q = caseless(q)[0] if caseless(q)[0] is not None else q
                if q.op == 'at' and q.a[1] is p.a[1] and is_str(textof(q.a[0])) and textof(q.a[0]).a[1].lower() == c or \
                        q.op == 'c' and q.a[0] == 'char' and q.a[1] == (c[i] if k == 'lower' else c[i].upper()):
                    if not v:
                        return False
                    known.add(i)
        for (m, (l, h)) in self.bnd.items():
            if len(m) == 1 and l == h and l is not None and m[0][1] == 1:
                p, k = caseless(m[0][0])
                if p is not None and p.op == 'at' and textof(p.a[0]) is x and is_int(p.a[1]) and p.a[1].a[1] < len(c):
                    i = p.a[1].a[1]
                    if l != ord(c[i] if k == 'lower' else c[i].upper()):
                        return False
                    known.add(i)
        return True if lo == hi == len(c) == len(known) and c.isascii() else None

    def elementwise(self, x, y):
        """equality of two texts or lists from what is known of their lengths and elements"""
        r = self.affixes(x, y)
        if r is not None:
            return r
        r = self.spelled(x, y)
        if r is not None:
            return r
        if not any(t.op == 'app' and t.a[0] in ('len', 'xordiff') for k in self.bnd for t, _ in k) and not \
                any(a.op == 'eq' and a.a[0].op == 'at' and a.a[1].op == 'at' or a.op == 'eq0' and a.a[0].op == 'lin' for a in self.atoms):
            return None
        lo, hi = self.samelen(x, y)
        if lo != hi and self.decide(IntCmp('Eq', length(x), length(y))) is False:
            return False
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if lo == 0 and hi == 0 and (self.lin_range(length(x))[1] == 0 or self.lin_range(length(y))[1] == 0):
            return True
        for d in (App('xordiff', x, y), App('xordiff', y, x)):
            l2, h2 = self.lin_range(d)
            if l2 is not None and l2 > 0:
                return False
            if h2 == 0 and lo == 0 and hi == 0:
                return True
        for k, (l2, h2) in self.bnd.items():
            # parts at the same place that differ
            if l2 is not None and l2 > 0 and len(k) == 1 and k[0][1] == 1 and k[0][0].op == 'app' and k[0][0].a[0] == 'xordiff':
                p, q = k[0][0].a[1:]
                if p.op == 'slice' and q.op == 'slice' and p.a[1:] == q.a[1:] and {p.a[0], q.a[0]} == {x, y}:
                    return False
        for a, v in self.atoms.items():
            # one position at which they differ
            if v is False and a.op == 'eq':
                p, q = a.a
            elif v is False and a.op == 'eq0' and a.a[0].op == 'lin' and a.a[0].a[0] == 0 and len(a.a[0].a[1]) == 2 and {n for _, n in a.a[0].a[1]} == {1, -1}:
                (p, _), (q, _) = a.a[0].a[1]
            else:
                continue
            if p.op == 'at' and q.op == 'at' and p.a[1] is q.a[1] and {textof(p.a[0]), textof(q.a[0])} == {x, y}:
                return False
        return None

    def spelled(self, x, y):
        """equality of a text and a constant from what is known of its bytes one by one"""
        if x.op == 'c':
            x, y = y, x
        if y.op != 'c' or y.a[0] != 'str' or x.op == 'c':
            return None
        b = y.a[1].encode()
        if not y.a[1].isascii():
            return None
        n = self.lin_range(length(x))
        if n[0] is not None and n[0] > len(b) or n[1] is not None and n[1] < len(b):
            return False
        known = n == (len(b), len(b))
        at = {t.a[1].a[1]: t for k in self.bnd for t, _ in k if t.op == 'at' and t.a[1].op == 'c' and textof(t.a[0]) is x}
        for a, v in self.atoms.items():
            if v is False and a.op == 'eq0' and a.a[0].op == 'lin' and len(a.a[0].a[1]) == 1:
                t = a.a[0].a[1][0][0]
                if t.op == 'at' and t.a[1].op == 'c' and textof(t.a[0]) is x:
                    at[t.a[1].a[1]] = t
        if not at:
            return None
        for i, c in enumerate(b):
            t = at.get(i)
            if t is None:
                known = False
                continue
            d = self.decide(IntCmp('Eq', t, Int(c)))
            if d is False:
                return False
            if d is None:
                known = False
        return True if known else None

    def assume(self, b, v):
        """assume boolean term b has truth value v; raises Dead"""
        d = self.decide(b)
        if d is not None:
            if d != v:
                raise Dead()
            return
        if b.op == 'not':
            return self.assume(b.a[0], not v)
        if b.op == 'le0':
            if v:
                self.assume_le(b.a[0])
            else:
                self.assume_le(lin_scale(b.a[0], -1), -1)
            return
        if b.op == 'eq0':
            if v:
                self.assume_le(b.a[0])
                self.assume_le(lin_scale(b.a[0], -1))
            else:
                lo, hi = self.lin_range(b.a[0])
                if lo == 0:
                    self.assume_le(lin_scale(b.a[0], -1), -1)
                elif hi == 0:
                    self.assume_le(b.a[0], -1)
                else:
                    self.atoms[b] = False
            return
        if b.op == 'isvar':
            if v:
                self.set_variant(b.a[0], b.a[1])
            else:
                self.exclude(b.a[0], b.a[1], b.a[2])
            return
        if b.op == 'cieq' and v:
            # the same ASCII text but for the case: of the same length
            n = length(b.a[0])
            if n.op == 'app' or n.op == 'lin':
                self.assume_le(n, len(b.a[1].a[1]))
                self.assume_le(lin_scale(n, -1), -len(b.a[1].a[1]))
        self.atoms[b] = v

    # --------------------------------------------------------- deltas
    def facts(self):
        """set of all facts of the state, for differences between states"""
        f = set()
        for t, v in self.var.items():
            f.add(('var', t, v))
        for t, n in self.nvar.items():
            if t not in self.var:
                for v in n:
                    f.add(('nvar', t, v))
        for a, v in self.atoms.items():
            f.add(('atom', a, v))
        for k, (lo, hi) in self.bnd.items():
            t = mk_lin(0, dict(k))
            if lo is not None:
                f.add(('ge', t, lo))
            if hi is not None:
                f.add(('le', t, hi))
        return f

    def add_facts(self, fs):
        for k, t, v in fs:
            if k == 'var':
                self.set_variant(t, v)
            elif k == 'nvar':
                self.nvar[t] = self.nvar.get(t, frozenset()) | {v}
            elif k == 'atom':
                self.assume(t, v)
            elif k == 'le':
                self.assume_le(t, v)
            elif k == 'ge':
                self.assume_le(lin_scale(t, -1), -v)


def subst_facts(fs, m):
    return tuple((k, subst(t, m), v) for k, t, v in fs)


# ------------------------------------------------------------------ boolean constructors
def Not(b):
    if b.op == 'c':
        return Bool(not b.a[1])
    if b.op == 'not':
        return b.a[0]
    return T('not', b)


def Le0(t):
    """t <= 0"""
    c, m = lin_parts(t)
    if not m:
        return Bool(c <= 0)
    # thresholds: ilog10(x), digits(x) and x/c against constants become bounds of x
    if len(m) == 1:
        (x, k), = m.items()
        if x.op == 'app' and x.a[0] in ('ilog10', 'digits', 'divc', 'bits') and abs(k) == 1:
            if k == 1:
                n = -c  # x <= n
                return Le0(_threshold(x, n))
            n = c  # x >= n  <=>  not x <= n-1
            return Not(Le0(_threshold(x, n - 1)))
    return T('le0', mk_lin(c, m))


def _threshold(x, n):
    """integer term u with (x <= n) <=> (u <= 0)"""
    a = x.a[1]
    if x.a[0] == 'ilog10':
        if n < 0:
            return Int(1)
        return lin_add(a, Int(10 ** min(n + 1, 60) - 1), -1)
    if x.a[0] == 'bits':
        if n < 0:
            return Int(1)
        return lin_add(a, Int(2 ** min(n, 130) - 1), -1)
    if x.a[0] == 'digits':
        if n < 1:
            return Int(1)
        return lin_add(a, Int(10 ** min(n, 60) - 1), -1)
    if x.a[0] == 'divc':
        k = x.a[2].a[1]
        return lin_add(a, Int((n + 1) * k - 1), -1)
    raise AssertionError


def IntCmp(op, a, b):
    d = lin_add(a, b, -1)
    if op == 'Lt':
        return Le0(lin_add(d, Int(1)))
    if op == 'Le':
        return Le0(d)
    if op == 'Gt':
        return Not(Le0(d))
    if op == 'Ge':
        return Not(Le0(lin_add(d, Int(1))))
    if op in ('Eq', 'Ne'):
        c, m = lin_parts(d)
        if not m:
            r = Bool(c == 0)
        else:
            r = None
            if len(m) == 1:
                (x, k), = m.items()
                if x.op == 'app' and x.a[0] == 'divc' and c == 0:
                    r = Le0(_threshold(x, 0))  # unsigned
                elif x.op == 'app' and x.a[0] in ('ilog10', 'digits', 'bits'):
                    r = T('eq0', d)
            if r is None:
                key, f = State.homog(m)
                if c % f:
                    r = FALSE
                else:
                    r = T('eq0', mk_lin(c // f, dict(key)))
        return r if op == 'Eq' else Not(r)
    raise AssertionError(op)


def caseless(t):
    """(inner, kind) when t is a case-folded text"""
    if t.op == 'app' and t.a[0] in ('lower', 'upper'):
        return t.a[1], t.a[0]
    return None, None


def textof(src):
    """the text whose bytes or characters src enumerates"""
    return src.a[1] if src.op == 'app' and src.a[0] in ('bytes', 'chars') else src


EMPTY = Str('')


def nonempty(t):
    """whether a text certainly has at least one character"""
    if t.op == 'c':
        return t.a[0] == 'str' and t.a[1] != ''
    if t.op == 'cat':
        return any(nonempty(x) for x in t.a)
    # every JSON text has at least one character
    return t.op == 'fld' and t.a[1:] == ('Ok', '0') and t.a[0].op == 'app' and t.a[0].a[0] == 'json_ser'


def Both(p, q):
    """p and q; texts as long as one another with no differing part are equal"""
    for a, b in ((p, q), (q, p)):
        if a.op == 'eq0' and a.a[0].op == 'app' and a.a[0].a[0] == 'xordiff' and b.op == 'eq0':
            x, y = a.a[0].a[1:]
            if b is IntCmp('Eq', length(x), length(y)):
                return Eq(x, y)
    return T('and', p, q)


def Eq(a, b):
    """equality of two opaque or constant scalars / texts"""
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        if a.a[0] == b.a[0]:
            return FALSE
        ka, kb = a.a[1], b.a[1]
        if {a.a[0], b.a[0]} == {'str', 'bytes'}:
            x = ka.encode() if a.a[0] == 'str' else bytes(ka)
            y = kb.encode() if b.a[0] == 'str' else bytes(kb)
            return Bool(x == y)
        return FALSE
    if a.op == 'app' and b.op == 'app' and a.a[0] == b.a[0] and a.a[0] in ('bytes', 'chars'):
        return Eq(a.a[1], b.a[1])
    if a.op == 'app' and b.op == 'app' and a.a[0] == b.a[0] and a.a[0] in ('char_indices', 'pct') and len(a.a) == len(b.a) == 2:
        # each text has its own
        return Eq(a.a[1], b.a[1])
    if a.op == 'app' and b.op == 'app' and a.a[0] == b.a[0] and a.a[0] in ('decimal', 'int_to_be_bytes', 'int_to_le_bytes', 'int_to_ne_bytes'):
        return IntCmp('Eq', a.a[1], b.a[1])
    for x, y in ((a, b), (b, a)):
        if x.op == 'app' and x.a[0] == 'decimal' and is_str(y):
            z = y.a[1]
            return IntCmp('Eq', x.a[1], Int(int(z))) if z.isascii() and z.lstrip('-').isdigit() and str(int(z.lstrip('-'))) == z.lstrip('-') and z not in ('-0',) \
                and z.count('-') <= 1 else FALSE
    if a.op == 'rev' and b.op == 'rev':
        return Eq(a.a[0], b.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'app' and x.a[0] in ('chars', 'bytes') and y.op == 'arr' and all(z.op == 'c' for z in y.a):
            # a known text, one by one
            if x.a[0] == 'chars' and all(z.a[0] == 'char' for z in y.a):
                return Eq(x.a[1], Str(''.join(z.a[1] for z in y.a)))
            if x.a[0] == 'bytes' and all(z.a[0] == 'int' and 0 <= z.a[1] < 128 for z in y.a):
                return Eq(x.a[1], Str(''.join(chr(z.a[1]) for z in y.a)))
        if x.op == 'app' and x.a[0] == 'bytes' and (y.op == 'c' and y.a[0] in ('str', 'bytes') or caseless(y)[0] is not None):
            return Eq(x.a[1], y)
        if y is EMPTY:
            if x.op == 'app' and x.a[0] in ('strip_prefix', 'strip_suffix'):
                return Eq(x.a[1], x.a[2])
            if nonempty(x):
                return FALSE
    for x, y in ((a, b), (b, a)):
        i, k = caseless(x)
        if i is not None:
            if is_str(y):
                s = y.a[1]
                f = s.lower() if k == 'lower' else s.upper()
                if f != s:
                    return FALSE
                return CiEq(i, s)
            j, k2 = caseless(y)
            if j is not None and is_str(j):
                return CiEq(i, j.a[1])
    if is_int(a) or is_int(b) or a.op == 'lin' or b.op == 'lin':
        return IntCmp('Eq', a, b)
    if a.op == 'c' or (b.op != 'c' and repr(b) < repr(a)):
        a, b = b, a
    return T('eq', a, b)


def CiEq(t, s):
    if is_str(t):
        return Bool(t.a[1].lower() == s.lower())
    i, _ = caseless(t)
    if i is not None:
        t = i
    return T('cieq', t, Str(s.lower()))
