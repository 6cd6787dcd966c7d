"""Transfer functions: iterators and collections."""
import copy
from mbase import *

IT = 'core::iter::traits::iterator::Iterator::'
DEI = 'core::iter::traits::double_ended::DoubleEndedIterator::'


def isiter(v):
    return v.op in ('it', 'ad')


class Seq:
    # ------------------------------------------------------------- construction
    def make_iter(self, m, st, v, ty):
        """[(state, iterator)] over a collection value; None when unknown"""
        v = m.deref(st, v)
        if isiter(v):
            return [(st, v)]
        if ty is not None and ty.get('p') == OPTION or (v.op == 'adt' and v.a[0] == OPTION):
            out = []
            for s, w in m.fork_variant(st, v, OPTION):
                out.append((s, T('it', T('arr', fld(v, 'Some', '0')) if w == 'Some' else EMPTY, Int(0))))
            return out
        if ty is not None and ty.get('p') == RESULT:
            out = []
            for s, w in m.fork_variant(st, v, RESULT):
                out.append((s, T('it', T('arr', fld(v, 'Ok', '0')) if w == 'Ok' else EMPTY, Int(0))))
            return out
        if v.op == 'adt' and v.a[0].endswith(('range::Range', 'range::RangeInclusive', 'Range')) and len(v.a[2]) >= 2:
            lo, hi = v.a[2][0][1], v.a[2][1][1]
            if v.a[0].endswith('RangeInclusive'):
                hi = lin_add(hi, Int(1))
            if is_int(lo) and is_int(hi):
                n = max(0, hi.a[1] - lo.a[1])
                if n <= 24:
                    return [(st, T('it', T('arr', *[Int(lo.a[1] + i) for i in range(n)]), Int(0)))]
            return [(st, T('it', App('range', lo, hi), Int(0)))]
        return [(st, T('it', self.seqof(v), Int(0)))]

    @staticmethod
    def seqof(v):
        """sequence denoted by a collection value"""
        if v.op == 'push':
            xs = []
            b = v
            while b.op == 'push':
                xs.insert(0, b.a[1])
                b = b.a[0]
            if b.op == 'arr':
                return T('arr', *(tuple(b.a) + tuple(xs)))
        if is_str(v) is False and v.op == 'c' and v.a[0] == 'bytes':
            return T('arr', *[Int(x) for x in v.a[1]])
        return v

    @model('core::iter::traits::collect::IntoIterator::into_iter', 'core::slice::iter', 'alloc::vec::Vec::iter', 'core::option::Option::iter',
           'core::slice::iter_mut_', 'core::option::Option::into_iter', *each(SETS, 'iter'), *each(MAPS, 'iter', 'keys', 'values', 'into_keys', 'into_values'))
    def into_iter(self, m, st, c):
        v = self.arg(m, st, c, 0)
        ty = self.argty(c, 0)
        if isiter(v):
            # an iterator held by mutable reference stays shared
            return ret(st, c.args[0] if c.args[0].op == 'mref' else v)
        if v.op == 'adt' and 'body' in c.f and v.a[0] in self.ir.adts and self.ir.adts[v.a[0]].get('local'):
            return None
        if ty is not None and ty['k'] == 'adt' and ty.get('p', '').startswith(('core::iter', 'core::str::iter', 'alloc::vec::into_iter', 'core::slice::iter')) and not isiter(v):
            # an iterator the analysis does not know
            if not (v.op == 'adt' and v.a[0].endswith('Range')):
                return None
        if ty is not None and ty.get('p') in MAPS:
            k = c.f['path'].split('::')[-1]
            return ret(st, T('it', App('map' + (k if 'iter' not in k else 'pairs').replace('into_', ''), v), Int(0)))
        if ty is not None and ty['k'] == 'param':
            return None
        r = self.make_iter(m, st, v, ty)
        return [Out('ret', s, i) for s, i in r]

    @model('alloc::vec::Vec::drain', 'alloc::collections::vec_deque::VecDeque::drain')
    def drain(self, m, st, c):
        r = self.arg(m, st, c, 1)
        if not (r.op == 'adt' and r.a[0].endswith('RangeFull')) or c.args[0].op != 'mref':
            return None
        v = m.deref(st, c.args[0])
        st = st.copy()
        m.assign_mref(st, c.args[0], EMPTY)
        return ret(st, T('it', self.seqof(v), Int(0)))

    @model('core::iter::sources::once::once')
    def once(self, m, st, c):
        return ret(st, T('it', T('arr', c.args[0]), Int(0)))

    @model('core::iter::sources::empty::empty')
    def iempty(self, m, st, c):
        return ret(st, T('it', EMPTY, Int(0)))

    # ------------------------------------------------------------- adapters
    def adapter(self, m, st, c):
        kind = c.f['path'].split('::')[-1]
        if c.args[0].op == 'mref':
            return None
        v = self.arg(m, st, c, 0)
        if v.op == 'adt' and v.a[0].endswith(('Range', 'RangeInclusive')):
            v = self.make_iter(m, st, v, None)[0][1]
        if not isiter(v):
            return None
        if kind in ('cloned', 'copied', 'fuse', 'by_ref', 'peekable_'):
            return ret(st, v)
        if kind in ('skip', 'take', 'rev', 'enumerate', 'zip') and v.op == 'ad' and self.position(v) is None and all(is_int(p) for _, p in m.iter_src(v)):
            # the filtered elements as a list
            out = []
            for o in self.collect_into(m, st, v, c):
                if o.kind != 'ret' or o.val.op not in ('arr', 'cseq', 'mapseq'):
                    out = None
                    break
                c2 = copy.copy(c)
                c2.args = [T('it', o.val, Int(0))] + list(c.args[1:])
                r = self.adapter(m, o.st, c2)
                if r is None:
                    out = None
                    break
                out += r
            return out
        if kind == 'peekable':
            return ret(st, v)
        if kind in ('take', 'skip', 'step_by'):
            n = self.arg(m, st, c, 1)
            if kind != 'step_by' and v.op == 'ad' and (v.a[0] in ('map', 'inspect') or kind == 'take' and v.a[0] in ('enumerate', 'zip')) and self.position(v) is not None:
                # the same elements of what is adapted
                c2 = copy.copy(c)
                c2.args = [v.a[1]] + list(c.args[1:])
                r = self.adapter(m, st, c2)
                return r and [Out('ret', o.st, T('ad', v.a[0], o.val, *v.a[2:])) if o.kind == 'ret' else o for o in r]
            if v.op == 'it' and is_int(v.a[1]) and (is_int(n) or kind == 'take') and kind != 'step_by':
                src = self.from_pos(v)
                if kind == 'skip':
                    # skipping past the end gives nothing
                    out = []
                    for s, b in m.fork_bool(st, IntCmp('Le', n, length(src))):
                        out.append(Out('ret', s, T('it', self.sub(src, n, length(src)) if b else EMPTY, Int(0))))
                    return out
                out = []
                for s, b in m.fork_bool(st, IntCmp('Lt', n, length(src))):
                    out.append(Out('ret', s, T('it', self.sub(src, Int(0), n) if b else src, Int(0))))
                return out
            if v.op == 'it' and is_int(v.a[1]) and kind == 'skip':
                src = self.from_pos(v)
                out = []
                for s, b in m.fork_bool(st, IntCmp('Le', n, length(src))):
                    out.append(Out('ret', s, T('it', self.sub(src, n, length(src)) if b else EMPTY, Int(0))))
                return out
            return None
        if kind == 'rev':
            if v.op == 'it' and is_int(v.a[1]):
                return ret(st, T('it', self.reverse(self.from_pos(v)), Int(0)))
            if v.op == 'ad' and v.a[0] == 'map':
                inner = v.a[1]
                if inner.op == 'it' and is_int(inner.a[1]):
                    return ret(st, T('ad', 'map', T('it', self.reverse(self.from_pos(inner)), Int(0)), v.a[2]))
            return None
        if kind == 'enumerate':
            return ret(st, T('ad', 'enumerate', v))
        if kind in ('zip', 'chain'):
            r = self.make_iter(m, st, c.args[1], self.argty(c, 1))
            return [Out('ret', s, T('ad', kind, v, i)) for s, i in r]
        if kind == 'flatten' and v.op == 'it' and v.a[0].op == 'app' and v.a[0].a[0] == 'chars':
            # spelled in another case below: already the characters themselves
            return ret(st, v)
        if kind in ('flat_map', 'map') and v.op == 'it' and v.a[1] is Int(0) and v.a[0].op == 'app' and v.a[0].a[0] in ('chars', 'bytes'):
            # each character spelled in lower or upper case: the characters of the text in that case
            x = T('p', '#char')
            outs = m.call_value(st.copy(), c.args[1], [x], 1)
            for k in ('lower', 'upper'):
                if len(outs) == 1 and outs[0].kind == 'ret' and outs[0].val is App(k, x):
                    return ret(st, T('it', App(v.a[0].a[0], self.fold(k, v.a[0].a[1])), Int(0)))
        if kind == 'skip_while':
            maps, it = [], v
            while it.op == 'ad' and it.a[0] == 'map':
                maps.append(it.a[2])
                it = it.a[1]
            if it.op == 'it' and is_int(it.a[1]):
                # what is left from the first element that does not meet the condition
                src = self.from_pos(it)

                def step(s, x, acc):
                    good, bad = self.callbool(m, s, c.args[1], [fld(x, '', '1')], c.depth)
                    return [(b.kind, b.st, b.val) for b in bad] + [('next', s2, acc) if b else ('stop', s2, fld(x, '', '0')) for s2, b in good]
                out = []
                for o in self.consume(m, st, T('ad', 'enumerate', v), step, lambda s, acc: length(src), c):
                    if o.kind == 'ret':
                        r = T('it', EMPTY if o.val is length(src) else self.sub(src, o.val, length(src)), Int(0))
                        for f in reversed(maps):
                            r = T('ad', 'map', r, f)
                        o = Out('ret', o.st, r)
                    out.append(o)
                return out
        if kind in ('map', 'filter', 'filter_map', 'flat_map', 'inspect', 'take_while', 'skip_while', 'map_while'):
            if v.op == 'ad' and v.a[0] == 'chain' and not kind.endswith('_while'):
                return ret(st, T('ad', 'chain', T('ad', kind, v.a[1], c.args[1]), T('ad', kind, v.a[2], c.args[1])))
            return ret(st, T('ad', kind, v, c.args[1]))
        if kind == 'flatten':
            # over a collection of known size (usually an Option) holding collections: one after the other
            ty = self.selfty(c)
            if v.op == 'it' and is_int(v.a[1]) and v.a[0].op == 'arr' and ty is not None and ty.get('a'):
                e = self.peelty(ty['a'][-1] if ty['a'][-1] is not None else ty['a'][0])
                if e.get('p') in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque', *SETS) or e['k'] in ('slice', 'array'):
                    xs = [T('it', self.seqof(m.deref(st, x)), Int(0)) for x in v.a[0].a[v.a[1].a[1]:]]
                    r = xs[0] if xs else T('it', EMPTY, Int(0))
                    for x in xs[1:]:
                        r = T('ad', 'chain', r, x)
                    return ret(st, r)
            return ret(st, T('ad', 'flatten', v))
        return None
    adapter.keys = tuple(IT + x for x in ('map', 'filter', 'filter_map', 'flat_map', 'flatten', 'inspect', 'take_while', 'skip_while', 'map_while',
                                           'cloned', 'copied', 'fuse', 'take', 'skip', 'step_by', 'rev', 'enumerate', 'zip', 'chain', 'peekable'))

    @staticmethod
    def from_pos(v):
        src, p = v.a[0], v.a[1]
        if p is Int(0):
            return src
        if src.op == 'arr':
            return T('arr', *src.a[p.a[1]:])
        return subseq(src, p, length(src))

    @staticmethod
    def sub(src, lo, hi):
        return subseq(src, lo, hi)

    @staticmethod
    def reverse(src):
        if src.op == 'arr':
            return T('arr', *reversed(src.a))
        if src.op == 'rev':
            return src.a[0]
        if src.op in ('mapseq', 'cseq') and not contains(src.a[2] if src.op == 'mapseq' else T('x', *[y for fs, b in src.a[2] for y in [b] + [f[1] for f in fs]]), lambda q: q.op in ('k', 'phi')):
            return T(src.op, Seq.reverse(src.a[0]), *src.a[1:])
        return T('rev', src)

    # ------------------------------------------------------------- one step
    def nxt(self, m, st, v, depth):
        """one step of iterator v: list of (kind, state, element, iterator), kind in some, none, skip, or an Out"""
        if v.op == 'it':
            src, p = v.a[0], v.a[1]
            if is_int(p):
                out = []
                n = length(src)
                if src.op == 'app' and src.a[0] == 'splitn':
                    cap = src.a[3].a[1]
                    cond = FALSE if p.a[1] >= cap else IntCmp('Lt', p, nseg(src.a[1], src.a[2]))
                else:
                    cond = IntCmp('Lt', p, n)
                for s, b in m.fork_bool(st, cond):
                    if b:
                        out.append(('some', s, at(src, p), T('it', src, Int(p.a[1] + 1), *v.a[2:])))
                    else:
                        out.append(('none', s, None, v))
                return out
            if p.op == 'k':
                s2 = st.copy()
                s2.exh = s2.exh | {p.a[0], ('e', p.a[0], src)}
                none = [('none', s2, None, v)]
                s1 = st.copy()
                try:
                    s1.assume(IntCmp('Ge', p, Int(0)), True)
                    s1.assume(IntCmp('Lt', p, length(src)), True)
                except Dead:
                    return none
                return [('some', s1, at(src, p), T('it', src, T('kn', p.a[0]), *v.a[2:]))] + none
            raise Undecided('iterator advanced twice in one iteration')
        k = v.a[0]
        inner = v.a[1]
        out = []
        if k in ('zip', 'chain'):
            for o in self.nxt(m, st, inner, depth):
                if o[0] in ('undec', 'panic', 'skip'):
                    out.append(o if o[0] != 'skip' else ('skip', o[1], None, T('ad', k, o[3], v.a[2])))
                    continue
                if k == 'zip':
                    if o[0] == 'none':
                        # at most as many steps as the second one allows
                        if inner.op == 'it' and v.a[2].op == 'it' and inner.a[1].op == 'k' and not self.endable(o[1], inner, v.a[2]):
                            continue
                        out.append(('none', o[1], None, v))
                        continue
                    for q in self.nxt(m, o[1], v.a[2], depth):
                        if q[0] == 'some':
                            out.append(('some', q[1], T('tup', o[2], q[2]), T('ad', k, o[3], q[3])))
                        elif q[0] == 'none':
                            # the second one ends first: the first one has not been gone through
                            s2 = q[1].copy()
                            if inner.op == 'it' and v.a[2].op == 'it' and v.a[2].a[1].op == 'k' and not self.endable(o[1], v.a[2], inner):
                                continue
                            ended = s2.exh - o[1].exh
                            s2.exh = o[1].exh
                            if v.a[2].op == 'it':
                                s2.exh = s2.exh | {('z', x, v.a[2].a[0]) for x in ended if not isinstance(x, tuple)}
                            out.append(('none', s2, None, v))
                        elif q[0] == 'skip':
                            raise Undecided('zip of filtered iterators')
                        else:
                            out.append(q)
                else:
                    if o[0] == 'some':
                        if o[3].op == 'it' and o[3].a[1].op == 'kn':
                            raise Undecided('chain in a loop')
                        out.append(('some', o[1], o[2], T('ad', k, o[3], v.a[2])))
                    else:
                        for q in self.nxt(m, o[1], v.a[2], depth):
                            out.append((q[0], q[1], q[2], q[3] if q[0] in ('panic', 'undec') else q[3]))
            return out
        if k in ('flatten', 'flat_map'):
            return self.nxt_flat(m, st, v, depth)
        for o in self.nxt(m, st, inner, depth):
            if o[0] in ('panic', 'undec'):
                out.append(o)
                continue
            if o[0] != 'some':
                out.append((o[0], o[1], None, T('ad', k, o[3], *v.a[2:])))
                continue
            s, x, it2 = o[1], o[2], o[3]
            nv = T('ad', k, it2, *v.a[2:])
            if k == 'enumerate':
                idx = self.position(inner)
                if idx is None:
                    raise Undecided('enumerate over a filtered iterator')
                out.append(('some', s, T('tup', idx, x), nv))
                continue
            f = v.a[2]
            if k == 'case':
                out += self.case_step(m, s, x, f, nv)
                continue
            if k in ('map', 'inspect'):
                for r in m.call_value(s, f, [x], depth):
                    if r.kind == 'ret':
                        out.append(('some', r.st, r.val if k == 'map' else x, nv))
                    else:
                        out.append((r.kind, r.st, r.val, None))
                continue
            if k in ('filter', 'take_while', 'skip_while'):
                good, bad = self.callbool(m, s, f, [x], depth)
                for b in bad:
                    out.append((b.kind, b.st, b.val, None))
                for s2, t in good:
                    if k == 'filter':
                        out.append(('some' if t else 'skip', s2, x if t else None, nv))
                    elif k == 'take_while':
                        out.append(('some' if t else 'none', s2, x if t else None, nv))
                    else:
                        raise Undecided('skip_while')
                continue
            if k in ('filter_map', 'map_while'):
                for r in m.call_value(s, f, [x], depth):
                    if r.kind != 'ret':
                        out.append((r.kind, r.st, r.val, None))
                        continue
                    y = m.deref(r.st, r.val)
                    for s2, w in m.fork_variant(r.st, y, OPTION):
                        if w == 'Some':
                            out.append(('some', s2, fld(y, 'Some', '0'), nv))
                        else:
                            out.append(('skip' if k == 'filter_map' else 'none', s2, None, nv))
                continue
            raise Undecided('iterator adapter %s' % k)
        return out

    @staticmethod
    def case_step(m, st, x, cs, nv):
        """one element of a list that keeps (an image of) the elements meeting some condition"""
        bv, (fs, body) = cs.a[1], cs.a[2][0]
        out = []
        live = [st]
        for k, t, w in subst_facts(fs, {bv: x}):
            if k in ('var', 'nvar'):
                uni = [u for u in (('None', 'Some'), ('Ok', 'Err')) if w in u]
                if not uni:
                    raise Undecided('list filtered by an enumeration')
                b = T('isvar', t, w, uni[0])
                b = Not(b) if k == 'nvar' else b
            elif k == 'atom':
                b = t if w else Not(t)
            else:
                b = Le0(lin_add(Int(w), t, -1) if k == 'ge' else lin_add(t, Int(w), -1))
            nxt = []
            for s in live:
                for s2, y in m.fork_bool(s, b):
                    if y:
                        nxt.append(s2)
                    else:
                        out.append(('skip', s2, None, nv))
            live = nxt
        return [('some', s, subst(body, {bv: x}), nv) for s in live] + out

    @staticmethod
    def endable(st, a, b):
        """of two iterators advanced together, a can be the one that ends"""
        s = st.copy()
        try:
            s.assume(IntCmp('Le', length(a.a[0]), a.a[1]), True)
            if b.a[1] is a.a[1]:
                s.assume(IntCmp('Le', a.a[1], length(b.a[0])), True)
            s.assume(IntCmp('Le', a.a[1], length(a.a[0])), True)
        except Dead:
            return False
        return True

    def nxt_flat(self, m, st, v, depth):
        """flatten over Options is a filter_map; other flattening only for known inner collections"""
        k = v.a[0]
        out = []
        cur = v.a[3] if len(v.a) > 3 else (v.a[2] if k == 'flatten' and len(v.a) > 2 else None)
        f = v.a[2] if k == 'flat_map' else None
        if cur is not None:
            for o in self.nxt(m, st, cur, depth):
                if o[0] == 'some':
                    out.append(('some', o[1], o[2], self.flatv(k, v.a[1], f, o[3])))
                elif o[0] == 'none':
                    out += self.nxt_flat(m, o[1], self.flatv(k, v.a[1], f, None), depth)
                else:
                    out.append(o)
            return out
        for o in self.nxt(m, st, v.a[1], depth):
            if o[0] in ('panic', 'undec'):
                out.append(o)
                continue
            if o[0] != 'some':
                out.append((o[0], o[1], None, self.flatv(k, o[3], f, None)))
                continue
            vals = [(o[1], o[2])]
            if f is not None:
                vals = []
                for r in m.call_value(o[1], f, [o[2]], depth):
                    if r.kind == 'ret':
                        vals.append((r.st, r.val))
                    else:
                        out.append((r.kind, r.st, r.val, None))
            for s, y in vals:
                y = m.deref(s, y)
                if y.op == 'arr' or isiter(y) and all(is_int(p) and is_int(length(sr)) for sr, p in m.iter_src(y)):
                    for s2, it in self.make_iter(m, s, y, None):
                        out += self.nxt_flat(m, s2, self.flatv(k, o[3], f, it), depth)
                elif y.op == 'adt' and y.a[0] == OPTION or s.variant(y) in ('Some', 'None') or self.makes_option(m, f) or y.op in ('fld', 'at', 'app', 'p') and self.optlike(y):
                    for s2, w in m.fork_variant(s, y, OPTION):
                        if w == 'Some':
                            out.append(('some', s2, fld(y, 'Some', '0'), self.flatv(k, o[3], f, None)))
                        else:
                            out.append(('skip', s2, None, self.flatv(k, o[3], f, None)))
                else:
                    raise Undecided('flattening of unknown collections')
        return out

    def optlike(self, y):
        """the term denotes an Option (from the type of the field it is read from)"""
        if y.op == 'fld':
            c = [self.ir.types[x['t']].get('p') == OPTION for ad in self.ir.adts.values() for v in ad['v'] for x in v['f']
                 if x['n'] == y.a[2] and (not y.a[1] or y.a[1] == v['n']) and not x['n'].isdigit()]
            return bool(c) and all(c)
        return False

    def makes_option(self, m, f):
        """the function given to flat_map returns an Option"""
        if f is None or f.op != 'clo':
            return False
        return self.ir.types[self.ir.peel(self.ir.bodies[f.a[0]]['locals'][0])].get('p') == OPTION

    @staticmethod
    def flatv(k, inner, f, cur):
        a = [inner]
        if k == 'flat_map':
            a.append(f)
        if cur is not None:
            a.append(cur)
        return T('ad', k, *a)

    def position(self, v):
        if v.op == 'it':
            if v.a[1].op in ('k',) or is_int(v.a[1]):
                init = v.a[2] if len(v.a) > 2 and isinstance(v.a[2], T) else Int(0)
                return lin_add(v.a[1], init) if v.a[1].op == 'k' else v.a[1]
            return None
        if v.op == 'ad' and v.a[0] in ('map', 'inspect', 'enumerate', 'take_while', 'map_while', 'zip'):
            return self.position(v.a[1])
        return None

    # ------------------------------------------------------------- next
    @model(IT + 'next')
    def next(self, m, st, c):
        a = c.args[0]
        if a.op != 'mref':
            return None
        v = m.deref(st, a)
        if v.op == 'adt' and v.a[0].endswith('Range') and len(v.a[2]) == 2:
            return self.range_next(m, st, a, v)
        if not isiter(v):
            return None
        head = m.at_head
        outs = []
        res = self.nxt(m, st, v, c.depth)
        if any(o[0] == 'skip' for o in res) and not head:
            # a filtered iterator outside a loop head: run it to its next element
            return self.find_next(m, st, a, v, c)
        for o in res:
            if o[0] in ('panic', 'undec'):
                outs.append(Out(o[0], o[1], o[2]))
                continue
            s = o[1].copy()
            m.assign_mref(s, a, o[3])
            if o[0] == 'some':
                outs.append(Out('ret', s, Some(o[2])))
            elif o[0] == 'none':
                outs.append(Out('ret', s, NONE))
            else:
                outs.append(Out('skip', s))
        return outs

    def range_next(self, m, st, a, v):
        lo, hi = v.a[2][0][1], v.a[2][1][1]
        outs = []
        for s, b in m.fork_bool(st, IntCmp('Lt', lo, hi)):
            if b:
                s = s.copy()
                m.assign_mref(s, a, T('adt', v.a[0], v.a[1], ((v.a[2][0][0], lin_add(lo, Int(1))), v.a[2][1])))
                outs.append(Out('ret', s, Some(lo)))
            else:
                outs.append(Out('ret', s, NONE))
        return outs

    def find_next(self, m, st, a, v, c):
        def step(s, x, acc):
            return [('stop', s, Some(x))]
        return self.consume(m, st, v, step, lambda s, acc: NONE, c, back=a)

    @model(IT + 'size_hint', IT + 'advance_by')
    def sizehint(self, m, st, c):
        return None

    @model('core::iter::adapters::peekable::Peekable::peek')
    def peek(self, m, st, c):
        v = self.arg(m, st, c, 0)
        if not isiter(v):
            return None
        out = []
        for o in self.nxt(m, st, v, c.depth):
            if o[0] == 'some':
                out.append(Out('ret', o[1], Some(o[2])))
            elif o[0] == 'none':
                out.append(Out('ret', o[1], NONE))
            else:
                return None
        return out

    @model(DEI + 'next_back')
    def next_back(self, m, st, c):
        a = c.args[0]
        if a.op != 'mref':
            return None
        v = m.deref(st, a)
        if v.op != 'it' or not is_int(v.a[1]):
            return None
        src = self.from_pos(v)
        out = []
        for s, b in m.fork_bool(st, IntCmp('Ge', length(src), Int(1))):
            if b:
                s = s.copy()
                n = lin_add(length(src), Int(1), -1)
                m.assign_mref(s, a, T('it', self.sub(src, Int(0), n), Int(0)))
                out.append(Out('ret', s, Some(at(src, n))))
            else:
                out.append(Out('ret', s, NONE))
        return out

    # ------------------------------------------------------------- consumers
    def consume(self, m, st, it, step, done, c, init=None, back=None):
        """run an iterator; step(state, element, accumulator) -> [(kind, state, value)], kind in next, stop, panic, undec"""
        if it.op == 'ad' and it.a[0] == 'chain' and back is None:
            # the first one to its end, then the second one
            out = []
            for o in self.consume(m, st, it.a[1], step, lambda s, acc: T('more', acc), c, init):
                if o.kind == 'ret' and o.val.op == 'more':
                    out += self.consume(m, o.st, it.a[2], step, done, c, o.val.a[0])
                else:
                    out.append(o)
            return out
        st = st.copy()
        ic, _ = m.alloc(st, it)
        ac, _ = m.alloc(st, init if init is not None else UNIT)

        def runner(s):
            outs = []
            v = s.cells[ic]
            try:
                res = self.nxt(m, s, v, c.depth)
            except Dead:
                return []
            except Undecided as e:
                return [Out('undec', s, e.why)]
            for o in res:
                if o[0] in ('panic', 'undec'):
                    outs.append(Out(o[0], o[1], o[2]))
                    continue
                s2 = o[1].copy()
                s2.cells[ic] = o[3]
                if o[0] == 'none':
                    outs.append(Out('exit', s2, done(s2, s2.cells[ac])))
                elif o[0] == 'skip':
                    outs.append(Out('cont', s2))
                else:
                    try:
                        rs = step(s2, o[2], s2.cells[ac])
                    except Dead:
                        continue
                    except Undecided as e:
                        outs.append(Out('undec', s2, e.why))
                        continue
                    for kind, s3, val in rs:
                        if kind == 'next':
                            s3 = s3.copy()
                            s3.cells[ac] = val
                            outs.append(Out('cont', s3))
                        elif kind == 'stop':
                            outs.append(Out('exit', s3, val))
                        else:
                            outs.append(Out(kind, s3, val))
            return outs

        out = []
        for o in m.loop_core(st, runner, lambda cell: True, 'iteration in %s' % (m.ir.bodies[m.stack[-1]]['path'] if m.stack else '?')):
            if o.kind == 'exit':
                s = o.st
                if back is not None:
                    m.assign_mref(s, back, s.cells[ic])
                s.cells.pop(ic, None)
                s.cells.pop(ac, None)
                out.append(Out('ret', s, o.val))
            else:
                out.append(o)
        return out

    def iter_arg(self, m, st, c, i=0):
        """the iterator argument; a Range is turned into one"""
        v = self.arg(m, st, c, i)
        if isiter(v):
            return v
        if v.op == 'adt' and v.a[0].endswith(('Range', 'RangeInclusive')) and len(v.a[2]) >= 2:
            return self.make_iter(m, st, v, None)[0][1]
        return None

    def back(self, c):
        return c.args[0] if c.args[0].op == 'mref' else None

    @model(IT + 'all', IT + 'any')
    def all_any(self, m, st, c):
        it = self.iter_arg(m, st, c)
        if it is None:
            return None
        every = c.f['path'].endswith('all')
        f = c.args[1]

        def step(s, x, acc):
            good, bad = self.callbool(m, s, f, [x], c.depth)
            r = [(b.kind, b.st, b.val) for b in bad]
            for s2, b in good:
                if b == every:
                    r.append(('next', s2, acc))
                else:
                    r.append(('stop', s2, Bool(not every)))
            return r
        return self.consume(m, st, it, step, lambda s, acc: Bool(every), c, back=self.back(c))

    @model(IT + 'find', DEI + 'rfind')
    def it_find(self, m, st, c):
        it = self.iter_arg(m, st, c)
        if it is None:
            return None
        if c.f['path'].endswith('rfind'):
            if it.op != 'it' or not is_int(it.a[1]):
                return None
            it = T('it', self.reverse(self.from_pos(it)), Int(0))

        def step(s, x, acc):
            good, bad = self.callbool(m, s, c.args[1], [x], c.depth)
            return [(b.kind, b.st, b.val) for b in bad] + [('stop', s2, Some(x)) if b else ('next', s2, acc) for s2, b in good]
        return self.consume(m, st, it, step, lambda s, acc: NONE, c, back=self.back(c))

    @model(IT + 'find_map')
    def it_find_map(self, m, st, c):
        it = self.iter_arg(m, st, c)
        if it is None:
            return None

        def step(s, x, acc):
            r = []
            for o in m.call_value(s, c.args[1], [x], c.depth):
                if o.kind != 'ret':
                    r.append((o.kind, o.st, o.val))
                    continue
                y = m.deref(o.st, o.val)
                for s2, w in m.fork_variant(o.st, y, OPTION):
                    r.append(('stop', s2, Some(fld(y, 'Some', '0'))) if w == 'Some' else ('next', s2, acc))
            return r
        return self.consume(m, st, it, step, lambda s, acc: NONE, c, back=self.back(c))

    @model(IT + 'position')
    def it_position(self, m, st, c):
        it = self.iter_arg(m, st, c)
        if it is None:
            return None
        it = T('ad', 'enumerate', it)

        def step(s, x, acc):
            good, bad = self.callbool(m, s, c.args[1], [fld(x, '', '1')], c.depth)
            return [(b.kind, b.st, b.val) for b in bad] + [('stop', s2, Some(fld(x, '', '0'))) if b else ('next', s2, acc) for s2, b in good]
        return self.consume(m, st, it, step, lambda s, acc: NONE, c)

    @model(IT + 'for_each')
    def for_each(self, m, st, c):
        it = self.iter_arg(m, st, c)
        if it is None:
            return None

        def step(s, x, acc):
            return [('next' if o.kind == 'ret' else o.kind, o.st, acc if o.kind == 'ret' else o.val) for o in m.call_value(s, c.args[1], [x], c.depth)]
        return self.consume(m, st, it, step, lambda s, acc: UNIT, c)

    @model(IT + 'fold', DEI + 'rfold')
    def iter_fold(self, m, st, c):
        it = self.iter_arg(m, st, c)
        if it is None or c.f['path'].endswith('rfold'):
            return None

        def step(s, x, acc):
            return [('next' if o.kind == 'ret' else o.kind, o.st, o.val) for o in m.call_value(s, c.args[2], [acc, x], c.depth)]
        return self.consume(m, st, it, step, lambda s, acc: acc, c, init=c.args[1])

    @model(IT + 'try_for_each', IT + 'try_fold')
    def try_fold(self, m, st, c):
        a0 = c.args[0]
        it = self.iter_arg(m, st, c)
        if it is None or c.dty is None:
            return None
        isfold = c.f['path'].endswith('try_fold')
        ad = self.ir.types[c.dty].get('p')
        cont = {RESULT: 'Ok', OPTION: 'Some', CFLOW: 'Continue'}.get(ad)
        if cont is None:
            return None
        f = c.args[2] if isfold else c.args[1]

        def step(s, x, acc):
            r = []
            for o in m.call_value(s, f, [acc, x] if isfold else [x], c.depth):
                if o.kind != 'ret':
                    r.append((o.kind, o.st, o.val))
                    continue
                y = m.deref(o.st, o.val)
                for s2, w in m.fork_variant(o.st, y, ad):
                    if w == cont:
                        r.append(('next', s2, fld(y, cont, '0')))
                    elif w == 'None':
                        r.append(('stop', s2, NONE))
                    else:
                        r.append(('stop', s2, T('adt', ad, w, (('0', fld(y, w, '0')),))))
            return r
        return self.consume(m, st, it, step, lambda s, acc: T('adt', ad, cont, (('0', acc),)), c,
                            init=c.args[1] if isfold else UNIT, back=a0 if a0.op == 'mref' else None)

    @model(IT + 'count')
    def count(self, m, st, c):
        it = self.iter_arg(m, st, c)
        if it is None:
            return None
        if it.op == 'it' and is_int(it.a[1]):
            src = it.a[0]
            if src.op == 'app' and src.a[0] in ('matches', 'match_indices'):
                return ret(st, lin_add(nseg(src.a[1], src.a[2]), Int(1 + it.a[1].a[1]), -1))
            n = length(src)
            return ret(st, lin_add(n, it.a[1], -1))
        out = []
        for o in self.collect_into(m, st, it, c):
            if o.kind != 'ret':
                out.append(o)
                continue
            v = o.val
            n = self.count_char(v)
            out.append(Out('ret', o.st, n if n is not None else length(v)))
        return out

    @staticmethod
    def count_char(v):
        """chars().filter(|c| c == 'x') counted"""
        if v.op == 'cseq' and v.a[0].op == 'app' and v.a[0].a[0] in ('chars', 'bytes') and len(v.a[2]) == 1:
            fs, b = v.a[2][0]
            if len(fs) == 1 and fs[0][0] == 'atom' and fs[0][2] is True:
                t = fs[0][1]
                if t.op == 'eq' and t.a[0] is v.a[1] and t.a[1].op == 'c':
                    x = t.a[1].a[1]
                    return lin_add(nseg(v.a[0].a[1], Str(x if isinstance(x, str) else chr(x))), Int(1), -1)
            x = None
            if len(fs) == 2 and fs[0][0] == 'ge' and fs[1][0] == 'le' and fs[0][1] is v.a[1] is fs[1][1] and fs[0][2] == fs[1][2]:
                x = fs[0][2]
            if x is not None and 0 <= x < 128 and v.a[0].a[0] == 'bytes':
                return lin_add(nseg(v.a[0].a[1], Str(chr(x))), Int(1), -1)
        return None

    @model(IT + 'sum', IT + 'product', IT + 'max', IT + 'min', IT + 'max_by_key', IT + 'min_by_key', IT + 'max_by', IT + 'min_by', IT + 'is_sorted')
    def reduce_opaque(self, m, st, c):
        return None

    @model(IT + 'last')
    def last(self, m, st, c):
        it = self.iter_arg(m, st, c)
        if it is None or it.op != 'it' or not is_int(it.a[1]):
            return None
        src = self.from_pos(it)
        n = length(src)
        return self.option(m, st, IntCmp('Ge', n, Int(1)), at(src, lin_add(n, Int(1), -1)))

    @model(IT + 'nth')
    def nth(self, m, st, c):
        a = c.args[0]
        it = self.iter_arg(m, st, c)
        n = self.arg(m, st, c, 1)
        if it is None or not is_int(n) or a.op != 'mref':
            return None
        work = [(st, it)]
        out = []
        for i in range(n.a[1] + 1):
            nw = []
            for s, v in work:
                for o in self.nxt(m, s, v, c.depth):
                    if o[0] == 'some':
                        if i == n.a[1]:
                            s2 = o[1].copy()
                            m.assign_mref(s2, a, o[3])
                            out.append(Out('ret', s2, Some(o[2])))
                        else:
                            nw.append((o[1], o[3]))
                    elif o[0] == 'none':
                        s2 = o[1].copy()
                        m.assign_mref(s2, a, o[3])
                        out.append(Out('ret', s2, NONE))
                    else:
                        raise Undecided('nth of a filtered iterator')
            work = nw
        return out

    @model(IT + 'eq', IT + 'ne')
    def it_eq(self, m, st, c):
        it = self.iter_arg(m, st, c)
        if it is None:
            return None
        b = self.make_iter(m, st, c.args[1], self.argty(c, 1))
        if len(b) != 1:
            return None
        x, y = it, b[0][1]
        if x.op == 'it' and y.op == 'it' and is_int(x.a[1]) and is_int(y.a[1]):
            r = self.eqterm(m, st, self.from_pos(x), self.from_pos(y), None)
            return ret(st, m.bnot(r) if c.f['path'].endswith('ne') else r)
        return None

    # ------------------------------------------------------------- collecting
    def collect_into(self, m, st, it, c):
        """outcomes whose value is the sequence of elements"""
        if it.op == 'it' and is_int(it.a[1]):
            src = self.from_pos(it)
            if src.op == 'app' and src.a[0] == 'splitn':
                return self.splitn_seq(m, st, src)
            return ret(st, src)

        def step(s, x, acc):
            return [('next', s, self.pushv(acc, m.deref(s, x)))]
        return self.consume(m, st, it, step, lambda s, acc: acc, c, init=EMPTY)

    def splitn_seq(self, m, st, src):
        """pieces of splitn as an explicit list, by the number of segments"""
        s, d, n = src.a[1], src.a[2], src.a[3].a[1]
        if n > 8:
            return ret(st, src)
        out = []
        for k in range(1, n + 1):
            cond = IntCmp('Eq', nseg(s, d), Int(k)) if k < n else IntCmp('Ge', nseg(s, d), Int(n))
            nxts = []
            for s2, b in m.fork_bool(st, cond):
                if b:
                    out.append(Out('ret', s2, T('arr', *[at(src, Int(i)) for i in range(k)])))
                else:
                    nxts.append(s2)
            if not nxts:
                break
            st = nxts[0]
        return out

    @staticmethod
    def pushv(acc, x):
        if acc.op == 'arr' and len(acc.a) < 64:
            return T('arr', *(tuple(acc.a) + (x,)))
        return T('push', acc, x)

    @model(IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
    def collect(self, m, st, c):
        it = self.iter_arg(m, st, c)
        if it is None:
            v = self.arg(m, st, c, 0)
            ty = self.argty(c, 0)
            if c.f['path'].endswith('from_iter') and ty is not None and (ty.get('p') in SEQS + SETS or ty['k'] in ('array', 'slice') or ty.get('p') == OPTION):
                r = self.make_iter(m, st, v, ty)
                if len(r) != 1:
                    return None
                st, it = r[0]
            else:
                return None
        if c.dty is None:
            return None
        ty = self.ir.types[c.dty]
        return self.collect_as(m, st, it, ty, c)

    def collect_as(self, m, st, it, ty, c):
        p = ty.get('p')
        if p in (RESULT, OPTION):
            good, badv = ('Ok', 'Err') if p == RESULT else ('Some', 'None')

            def step(s, x, acc):
                x = m.deref(s, x)
                r = []
                for s2, w in m.fork_variant(s, x, p):
                    if w == good:
                        r.append(('next', s2, self.pushv(acc, fld(x, good, '0'))))
                    else:
                        r.append(('stop', s2, T('tup', T('bad'), Err(fld(x, 'Err', '0')) if p == RESULT else NONE)))
                return r
            out = []
            for o in self.consume(m, st, it, step, lambda s, acc: T('tup', T('good'), acc), c, init=EMPTY):
                if o.kind != 'ret':
                    out.append(o)
                elif o.val.a[0].op == 'bad':
                    out.append(Out('ret', o.st, o.val.a[1]))
                else:
                    v = self.finish(m, o.st, o.val.a[1], self.ir.types[ty['a'][0]])
                    if v is None:
                        return None
                    out.append(Out('ret', o.st, Ok(v) if p == RESULT else Some(v)))
            return out
        if self.finish(m, st, EMPTY, ty) is None:
            return None
        out = []
        for o in self.collect_into(m, st, it, c):
            if o.kind == 'ret':
                out.append(Out('ret', o.st, self.finish(m, o.st, o.val, ty)))
            else:
                out.append(o)
        return out

    def finish(self, m, st, seq, ty):
        p = ty.get('p')
        if p in SEQS or ty['k'] in ('slice',) or (ty.get('box') and self.ir.types[ty['a'][0]]['k'] == 'slice'):
            return seq
        if p in SETS:
            return self.setof(seq)
        if p == 'alloc::string::String':
            if seq.op == 'app' and seq.a[0] == 'chars':
                return seq.a[1]
            return self.joined(seq, Str(''))
        if p in MAPS:
            return App('mapof', seq)
        if ty['k'] == 'tuple' and not ty['a']:
            return UNIT
        return None

    @staticmethod
    def setof(seq):
        if seq.op == 'arr':
            r = EMPTYSET
            for x in seq.a:
                r = T('ins', r, x)
            return r
        return App('setof', seq)

    @model('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::extend_from_slice', 'alloc::vec::Vec::append')
    def extend(self, m, st, c):
        a = c.args[0]
        if a.op != 'mref':
            return None
        ty = self.argty(c, 0)
        v = self.arg(m, st, c, 1)
        if c.f['path'].endswith('append'):
            st = st.copy()
            m.assign_mref(st, c.args[1], EMPTY)
        out = []
        for s, it in self.make_iter(m, st, v, self.argty(c, 1)):
            for o in self.collect_into(m, s, it, c):
                if o.kind != 'ret':
                    out.append(o)
                    continue
                s2 = o.st.copy()
                old = m.deref(s2, a)
                if self.textlike(ty):
                    nv = cat([old, self.joined(o.val, Str(''))])
                elif ty is not None and ty.get('p') in SETS:
                    nv = App('setunion', old, self.setof(o.val)) if old is not EMPTYSET else self.setof(o.val)
                elif ty is not None and ty.get('p') in MAPS:
                    return None
                elif old.op == 'arr' and o.val.op == 'arr':
                    nv = T('arr', *(tuple(old.a) + tuple(o.val.a)))
                elif old.op == 'arr' and not old.a:
                    nv = o.val
                else:
                    nv = App('concat', old, o.val)
                m.assign_mref(s2, a, nv)
                out.append(Out('ret', s2, UNIT))
        return out

    # ------------------------------------------------------------- vectors and slices
    @model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::collections::vec_deque::VecDeque::new')
    def vec_new(self, m, st, c):
        return ret(st, EMPTY)

    @model(*each(SETS + MAPS, 'new', 'with_capacity'))
    def set_new(self, m, st, c):
        return ret(st, EMPTYSET)

    @model('alloc::boxed::Box::new_uninit')
    def new_uninit(self, m, st, c):
        st = st.copy()
        _, r = m.alloc(st, T('uninit'))
        return ret(st, r)

    @model('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::boxed::Box::assume_init')
    def assume_init(self, m, st, c):
        v = m.deref(st, c.args[0])
        # MaybeUninit { value: ManuallyDrop { value: [..] } } written through the pointer
        while v.op == 'upd' and v.a[2] in ('value', 'uninit', '0'):
            v = v.a[3]
        return ret(st, v)

    @model('alloc::vec::from_elem')
    def from_elem(self, m, st, c):
        n = self.arg(m, st, c, 1)
        if is_int(n) and n.a[1] <= 32:
            return ret(st, T('arr', *[c.args[0]] * n.a[1]))
        return ret(st, App('repeat', c.args[0], n))

    @model('alloc::vec::Vec::push', 'alloc::collections::vec_deque::VecDeque::push_back')
    def push(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        st = st.copy()
        v = m.deref(st, c.args[0])
        m.assign_mref(st, c.args[0], self.pushv(v, m.deref(st, c.args[1])))
        return ret(st, UNIT)

    @model('alloc::vec::Vec::insert', 'alloc::collections::vec_deque::VecDeque::push_front')
    def vec_insert(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        v = m.deref(st, c.args[0])
        i = self.arg(m, st, c, 1) if c.f['path'].endswith('insert') else Int(0)
        x = c.args[2] if c.f['path'].endswith('insert') else c.args[1]
        n = length(v)
        out = []
        for s, b in m.fork_bool(st, Le0(lin_add(i, n, -1))):
            if not b:
                out.append(Out('panic', s, ('insert', 'insert', c.span)))
                continue
            s = s.copy()
            if v.op == 'arr' and is_int(i):
                l = list(v.a)
                l.insert(i.a[1], x)
                r = T('arr', *l)
            elif i is n:
                r = self.pushv(v, x)
            elif is_int(i) and i.a[1] == 0:
                r = App('concat', T('arr', x), v)
            else:
                r = App('inserted', v, i, x)
            m.assign_mref(s, c.args[0], r)
            out.append(Out('ret', s, UNIT))
        return out

    @model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
    def vec_remove(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        v = m.deref(st, c.args[0])
        i = self.arg(m, st, c, 1)
        n = length(v)
        sw = c.f['path'].endswith('swap_remove')
        out = []
        for s, b in m.fork_bool(st, IntCmp('Lt', i, n)):
            if not b:
                out.append(Out('panic', s, ('remove', 'remove', c.span)))
                continue
            s = s.copy()
            x = at(v, i)
            if v.op == 'arr' and is_int(i):
                l = list(v.a)
                if sw:
                    l[i.a[1]] = l[-1]
                    l.pop()
                else:
                    del l[i.a[1]]
                r = T('arr', *l)
            elif is_int(i) and i.a[1] == 0 and not sw:
                r = self.sub(v, Int(1), n)
            elif lin_add(i, Int(1)) is n:
                r = self.sub(v, Int(0), i)
            else:
                r = App('swap_removed' if sw else 'removed', v, i)
            m.assign_mref(s, c.args[0], r)
            out.append(Out('ret', s, x))
        return out

    @model('core::slice::reverse')
    def slice_reverse(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        st = st.copy()
        m.assign_mref(st, c.args[0], self.reverse(m.deref(st, c.args[0])))
        return ret(st, UNIT)

    @model('core::slice::rotate_left', 'core::slice::rotate_right')
    def rotate(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        v = m.deref(st, c.args[0])
        i = self.arg(m, st, c, 1)
        left = c.f['path'].endswith('left')
        out = []
        for s, b in m.fork_bool(st, Le0(lin_add(i, length(v), -1))):
            if not b:
                out.append(Out('panic', s, ('rotate', 'rotate', c.span)))
                continue
            s = s.copy()
            if v.op == 'arr' and is_int(i):
                k = i.a[1] if left else len(v.a) - i.a[1]
                r = T('arr', *(v.a[k:] + v.a[:k]))
            elif i is Int(0):
                r = v
            else:
                r = App('rotated', v, i if left else lin_add(length(v), i, -1))
            m.assign_mref(s, c.args[0], r)
            out.append(Out('ret', s, UNIT))
        return out

    @model('core::slice::swap')
    def slice_swap(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        v = m.deref(st, c.args[0])
        i, j = self.arg(m, st, c, 1), self.arg(m, st, c, 2)
        n = length(v)
        out = []
        for s, b in m.fork_bool(st, T('and', IntCmp('Lt', i, n), IntCmp('Lt', j, n))):
            if not b:
                out.append(Out('panic', s, ('swap', 'swap', c.span)))
                continue
            s = s.copy()
            if v.op == 'arr' and is_int(i) and is_int(j):
                l = list(v.a)
                l[i.a[1]], l[j.a[1]] = l[j.a[1]], l[i.a[1]]
                r = T('arr', *l)
            else:
                r = v if i is j else App('swapped', v, i, j)
            m.assign_mref(s, c.args[0], r)
            out.append(Out('ret', s, UNIT))
        return out

    @model('alloc::vec::Vec::split_off')
    def split_off(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        v = m.deref(st, c.args[0])
        i = self.arg(m, st, c, 1)
        n = length(v)
        out = []
        for s, b in m.fork_bool(st, Le0(lin_add(i, n, -1))):
            if not b:
                out.append(Out('panic', s, ('split_off', 'split_off', c.span)))
                continue
            s = s.copy()
            m.assign_mref(s, c.args[0], self.sub(v, Int(0), i))
            out.append(Out('ret', s, self.sub(v, i, n)))
        return out

    @model('alloc::vec::Vec::pop')
    def pop(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        v = m.deref(st, c.args[0])
        out = []
        n = length(v)
        for s, b in m.fork_bool(st, IntCmp('Ge', n, Int(1))):
            if b:
                s = s.copy()
                x = at(v, lin_add(n, Int(1), -1))
                m.assign_mref(s, c.args[0], self.sub(v, Int(0), lin_add(n, Int(1), -1)))
                out.append(Out('ret', s, Some(x)))
            else:
                out.append(Out('ret', s, NONE))
        return out

    @model('alloc::vec::Vec::clear', 'alloc::string::String::clear', *each(SETS + MAPS, 'clear'))
    def clear(self, m, st, c):
        d = self.default_of(self.argty(c, 0))
        if c.args[0].op != 'mref' or d is None:
            return None
        st = st.copy()
        m.assign_mref(st, c.args[0], d)
        return ret(st, UNIT)

    @model('alloc::vec::Vec::truncate')
    def truncate(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        v = m.deref(st, c.args[0])
        n = self.arg(m, st, c, 1)
        out = []
        for s, b in m.fork_bool(st, IntCmp('Lt', n, length(v))):
            s = s.copy()
            if b:
                m.assign_mref(s, c.args[0], self.sub(v, Int(0), n))
            out.append(Out('ret', s, UNIT))
        return out

    @model('alloc::vec::Vec::len', 'core::slice::len', *each(SETS + MAPS, 'len'), 'alloc::collections::vec_deque::VecDeque::len',
           'core::iter::traits::exact_size::ExactSizeIterator::len')
    def len(self, m, st, c):
        v = self.arg(m, st, c, 0)
        if isiter(v):
            if v.op == 'it' and is_int(v.a[1]):
                return ret(st, lin_add(length(v.a[0]), v.a[1], -1))
            return None
        return ret(st, length(v))

    @model('core::slice::get', 'core::str::get', 'alloc::vec::Vec::get')
    def get(self, m, st, c):
        v = self.arg(m, st, c, 0)
        i = self.arg(m, st, c, 1)
        if i.op == 'adt':
            r = self.range_of(v, i, self.textlike(self.argty(c, 0)))
            if r is None:
                return None
            lo, hi, n = r
            cond = T('and', Le0(lin_add(lo, hi, -1)), Le0(lin_add(hi, n, -1)))
            if self.textlike(self.argty(c, 0)):
                part = self.segpart(st, v, lo, hi)
                if part is not None:
                    return ret(st, Some(part))
                return self.option(m, st, T('and', cond, App('char_boundary', v, lo, hi)), self.textsub(v, lo, hi))
            return self.option(m, st, cond, self.sub(v, lo, hi))
        return self.option(m, st, IntCmp('Lt', i, length(v)), at(v, i))

    @model('core::slice::get_unchecked', 'core::str::get_unchecked')
    def get_unchecked(self, m, st, c):
        r = self.get(m, st, c)
        if r is None:
            return None
        return [Out('ret', o.st, fld(o.val, 'Some', '0')) if o.kind != 'ret' or o.st.variant(o.val) == 'Some' else
                Out('panic', o.st, ('undefined behaviour', 'get_unchecked out of range', c.span)) for o in r]

    @model('core::slice::first', 'core::slice::last', 'core::slice::first_', 'core::slice::split_first', 'core::slice::split_last')
    def first(self, m, st, c):
        v = self.arg(m, st, c, 0)
        n = length(v)
        k = c.f['path'].split('::')[-1]
        one = Int(1)
        x = at(v, Int(0)) if 'first' in k else at(v, lin_add(n, one, -1))
        if k == 'split_first':
            x = T('tup', x, self.sub(v, one, n))
        elif k == 'split_last':
            x = T('tup', x, self.sub(v, Int(0), lin_add(n, one, -1)))
        return self.option(m, st, IntCmp('Ge', n, one), x)

    def fieldless(self, y):
        """the type of a value that is a variant of an enum without fields"""
        if y.op == 'adt' and y.a[0] in self.ir.adts:
            ad = self.ir.adts[y.a[0]]
            if ad['kind'] == 'enum' and ad.get('local') and all(not v['f'] for v in ad['v']):
                return {'k': 'adt', 'p': y.a[0], 's': y.a[0]}
        return None

    @model('core::slice::contains')
    def contains(self, m, st, c):
        v, x = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        if v.op == 'arr':
            r = FALSE
            for y in v.a:
                e = self.eqterm(m, st, y, x, self.fieldless(y))
                r = e if r is FALSE else T('or', r, e)
            return ret(st, r)
        return ret(st, T('in', v, x))

    @model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
    def index(self, m, st, c):
        if c.f['path'].endswith('index_mut'):
            return None
        v = self.arg(m, st, c, 0)
        i = self.arg(m, st, c, 1)
        ty = self.argty(c, 0)
        ity = self.argty(c, 1)
        text = self.textlike(ty)
        if ty is not None and ty.get('p') in MAPS and v.op == 'app' and v.a[0] == 'mapof':
            out = []
            for o in self.map_find(m, st, v, i, c, Some, NONE):
                if o.kind != 'ret':
                    out.append(o)
                elif o.val is NONE:
                    out.append(Out('panic', o.st, ('missing key', 'index', c.span)))
                else:
                    out.append(Out('ret', o.st, fld(o.val, 'Some', '0')))
            return out
        if ty is not None and ty.get('p') in MAPS:
            return [Out('ret', s, App('mapget', v, i)) if b else Out('panic', s, ('missing key', 'index', c.span)) for s, b in m.fork_bool(st, T('in', v, i))]
        if i.op == 'adt' or (ity is not None and ity['k'] == 'adt'):
            if i.op != 'adt':
                return None
            if i.a[0].endswith('RangeFull'):
                return ret(st, v)
            r = self.range_of(v, i, text)
            if r is None:
                return None
            lo, hi, n = r
            part = self.segpart(st, v, lo, hi) if text else None
            if part is not None:
                return ret(st, part)
            out = []
            for s, b in m.fork_bool(st, T('and', Le0(lin_add(lo, hi, -1)), Le0(lin_add(hi, n, -1)))):
                if not b:
                    out.append(Out('panic', s, ('slice index out of range', 'index', c.span)))
                    continue
                if text and not self.boundary(v, lo, hi):
                    for s2, cb in m.fork_bool(s, App('char_boundary', v, lo, hi)):
                        out.append(Out('ret', s2, self.textsub(v, lo, hi)) if cb else Out('panic', s2, ('not a char boundary', 'index', c.span)))
                    continue
                out.append(Out('ret', s, self.textsub(v, lo, hi) if text else self.sub(v, lo, hi)))
            return out
        if ity is None or ity['s'] != 'usize':
            if ty is not None and ty.get('p') == 'serde_json::value::Value':
                return ret(st, App('jsonindex', v, i))
            return None
        return [Out('ret', s, at(v, i)) if b else Out('panic', s, ('index out of bounds', 'index', c.span)) for s, b in m.fork_bool(st, IntCmp('Lt', i, length(v)))]

    def range_of(self, v, i, text):
        n = self.textlen(v) if text else length(v)
        k = i.a[0].split('::')[-1]
        f = dict(i.a[2])
        if k == 'Range':
            return f['start'], f['end'], n
        if k == 'RangeFrom':
            return f['start'], n, n
        if k == 'RangeTo':
            return Int(0), f['end'], n
        if k == 'RangeToInclusive':
            return Int(0), lin_add(f['end'], Int(1)), n
        if k == 'RangeFull':
            return Int(0), n, n
        if k == 'RangeInclusive' and 'end' in f:
            return f['start'], lin_add(f['end'], Int(1)), n
        return None

    @staticmethod
    def segcut(st, v, t):
        """(delimiter, number of segments before, delimiter included) of a position between segments that are known to be there"""
        c, mm = lin_parts(t)
        ds, ix = set(), set()
        for x, k in mm.items():
            if k != 1 or x.op != 'app' or x.a[0] != 'len' or x.a[1].op != 'app' or x.a[1].a[0] != 'seg' or x.a[1].a[1] is not v or not is_str(x.a[1].a[2]):
                return None
            ds.add(x.a[1].a[2])
            ix.add(x.a[1].a[3].a[1])
        if len(ds) != 1 or ix != set(range(len(mm))):
            return None
        d = next(iter(ds))
        j, n = len(mm), len(d.a[1].encode())
        if n == 0 or c not in ((j - 1) * n, j * n):
            return None
        lo = st.lin_range(nseg(v, d))[0]
        return (d, j, c == j * n) if lo is not None and lo >= j + 1 else None

    def segpart(self, st, v, lo, hi):
        """the part of a text between two such positions (or its ends), or None"""
        whole = hi is self.textlen(v)
        a = None if lo is Int(0) else self.segcut(st, v, lo)
        b = None if whole else self.segcut(st, v, hi)
        if a is None and lo is not Int(0) or b is None and not whole or a is None and b is None:
            return None
        if a is not None and (not a[2] or b is not None and (a[0] is not b[0] or a[1] > b[1])):
            return None
        if b is None:
            return rest(v, a[0], a[1])
        i, (d, j, incl) = a[1] if a else 0, b
        if i == j:
            return Str('') if incl else None
        return cat(sum([[seg(v, d, k), d] for k in range(i, j)], [])[:None if incl else -1])

    @staticmethod
    def segpos(v, t):
        """(segment index, part) of a text position: end of segment 0 or start of the rest"""
        if t is Int(0):
            return 'start', None
        c, mm = lin_parts(t)
        if len(mm) == 1:
            (x, k), = mm.items()
            if k == 1 and x.op == 'app' and x.a[0] == 'len' and x.a[1].op == 'app' and x.a[1].a[0] == 'seg' and x.a[1].a[1] is v and x.a[1].a[3] is Int(0):
                d = x.a[1].a[2]
                if c == 0:
                    return 'cut', d
                if c == len(d.a[1].encode()):
                    return 'after', d
        return None, None

    def boundary(self, v, lo, hi):
        a, _ = self.segpos(v, lo)
        b, _ = self.segpos(v, hi)
        return a is not None and (b is not None or hi is self.textlen(v))

    def textsub(self, v, lo, hi):
        a, d1 = self.segpos(v, lo)
        b, d2 = self.segpos(v, hi)
        if a == 'start' and hi is self.textlen(v):
            return v
        if a == 'start' and b == 'cut':
            return seg(v, d2, 0)
        if a == 'after' and hi is self.textlen(v):
            return rest(v, d1, 1)
        return App('substr', v, lo, hi)

    @model('alloc::slice::sort', 'core::slice::sort_unstable', 'alloc::slice::sort_by_key', 'core::slice::sort_unstable_by_key',
           'alloc::slice::sort_by', 'core::slice::sort_unstable_by')
    def sort(self, m, st, c):
        if c.args[0].op != 'mref' or len(c.args) > 1:
            return None
        st = st.copy()
        m.assign_mref(st, c.args[0], App('sorted', m.deref(st, c.args[0])))
        return ret(st, UNIT)

    @model('alloc::vec::Vec::dedup')
    def dedup(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        st = st.copy()
        m.assign_mref(st, c.args[0], App('dedup', m.deref(st, c.args[0])))
        return ret(st, UNIT)

    @model('core::slice::windows')
    def windows(self, m, st, c):
        v = self.seqof(self.arg(m, st, c, 0))
        n = self.arg(m, st, c, 1)
        if not is_int(n) or not 1 <= n.a[1] <= 8:
            return None
        return [Out('ret', s, T('it', App('windows', v, n) if b else EMPTY, Int(0))) for s, b in m.fork_bool(st, IntCmp('Le', n, length(v)))]

    @model('core::slice::split_at', 'core::str::split_at')
    def split_at(self, m, st, c):
        v = self.arg(m, st, c, 0)
        i = self.arg(m, st, c, 1)
        text = c.f['path'].startswith('core::str')
        n = self.textlen(v) if text else length(v)
        if text:
            p, q = self.segpart(st, v, Int(0), i), self.segpart(st, v, i, n)
            if p is not None and q is not None:
                return ret(st, T('tup', p, q))
        out = []
        for s, b in m.fork_bool(st, Le0(lin_add(i, n, -1))):
            if b:
                if text and not self.boundary(v, i, n):
                    return None
                f = self.textsub if text else self.sub
                out.append(Out('ret', s, T('tup', f(v, Int(0), i), f(v, i, n))))
            else:
                out.append(Out('panic', s, ('split_at', 'split_at', c.span)))
        return out

    # ------------------------------------------------------------- sets and maps
    def member(self, m, st, v, x):
        """boolean term: x is in the set v"""
        if v is EMPTYSET or v is EMPTY:
            return FALSE
        if v.op == 'ins':
            e = self.eqterm(m, st, v.a[1], x, None)
            r = self.member(m, st, v.a[0], x)
            return e if r is FALSE else T('or', e, r)
        return T('in', v, x)

    @model(*each(SETS, 'insert'))
    def set_insert(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        v = m.deref(st, c.args[0])
        x = self.arg(m, st, c, 1)
        out = []
        for s, b in m.fork_bool(st, self.member(m, st, v, x)):
            s = s.copy()
            if not b:
                m.assign_mref(s, c.args[0], T('ins', v, x))
            out.append(Out('ret', s, Bool(not b)))
        return out

    @model(*each(MAPS, 'insert'))
    def map_insert(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        v = m.deref(st, c.args[0])
        x = self.arg(m, st, c, 1)
        out = []
        for s, b in m.fork_bool(st, self.member(m, st, v, x)):
            s = s.copy()
            if not b:
                m.assign_mref(s, c.args[0], T('ins', v, x))
            out.append(Out('ret', s, Some(App('oldvalue', v, x)) if b else NONE))
        return out

    @model(*each(SETS, 'contains'), *each(MAPS, 'contains_key'))
    def set_contains(self, m, st, c):
        v = self.arg(m, st, c, 0)
        x = self.arg(m, st, c, 1)
        if v.op == 'app' and v.a[0] == 'mapof':
            return self.map_find(m, st, v, x, c, lambda y: TRUE, FALSE)
        return ret(st, self.member(m, st, v, x))

    def map_find(self, m, st, v, x, c, some, none):
        """look x up in a map collected from a list of pairs: the last pair with this key counts"""
        r = self.reverse(v.a[1])
        it = T('it', r, Int(0))
        if r.op == 'cseq' and r.a[3:] and len(r.a[2]) == 1:
            it = T('ad', 'case', T('it', r.a[0], Int(0)), r)

        def step(s, p, acc):
            e = self.eqterm(m, s, fld(p, '', '0'), x, None)
            return [('stop', s2, some(fld(p, '', '1'))) if b else ('next', s2, acc) for s2, b in m.fork_bool(s, e)]
        out = []
        for o in self.consume(m, st, it, step, lambda s, acc: none, c):
            if o.kind == 'ret':
                s = o.st.copy()
                try:
                    # a second look gives the same answer
                    s.assume(T('in', v, x), o.val is not none)
                except Dead:
                    continue
                o = Out('ret', s, o.val)
            out.append(o)
        return out

    @model(*each(MAPS, 'get'))
    def map_get(self, m, st, c):
        v = self.arg(m, st, c, 0)
        x = self.arg(m, st, c, 1)
        if v.op == 'app' and v.a[0] == 'mapof':
            return self.map_find(m, st, v, x, c, Some, NONE)
        return self.option(m, st, self.member(m, st, v, x), App('mapget', v, x))

    # ------------------------------------------------------------- calling function values
    @model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
    def call_fn(self, m, st, c):
        f = m.deref(st, c.args[0])
        if f.op in ('clo', 'fnv') and c.args[1].op == 'tup':
            return m.call_value(st, c.args[0] if c.args[0].op == 'mref' else f, list(c.args[1].a), c.depth, c.dty)
        return None
