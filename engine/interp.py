"""Forward abstract interpretation of the dumped MIR.

A disjunctive dataflow analysis: abstract states (access-path values of locals plus variant, boolean and
interval facts) are propagated block by block; calls are analysed in context by descending into the callee's
body, or through a transfer function (models.py), or as an uninterpreted result. Loops are summarised by a
fixpoint over their head state (loop_core)."""
import os
from terms import *
from state import *

MAX_STEPS = int(os.environ.get('ENGINE_STEPS', '600000'))


ADDR = App('addr')


class Out:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val

    def __repr__(self):
        return 'Out(%s,%r)' % (self.kind, self.val)


class LoopRec:
    """Summary of one loop on one exit: every completed iteration took one of `edges`."""
    __slots__ = ('lid', 'src', 'edges', 'full', 'must', 'init', 'where')

    def __init__(self, lid, src, edges, full, must, init, where):
        self.lid, self.src, self.edges, self.full, self.must, self.init, self.where = lid, src, edges, full, must, init, where

    @property
    def key(self):
        return T('k', self.lid)

    def __repr__(self):
        return 'Loop(%d over %r %s must=%s edges=%r)' % (self.lid, self.src, 'full' if self.full else 'prefix', self.must and len(self.must), self.edges)


class Edge:
    __slots__ = ('src', 'dst', 'facts', 'upd', 'foralls', 'exists', 'log', 'rank')

    def __init__(self, src, dst, facts, upd, foralls, exists, log):
        self.src, self.dst, self.facts, self.upd, self.foralls, self.exists, self.log = src, dst, facts, upd, foralls, exists, log

    def __repr__(self):
        return 'Edge(%r upd=%r)' % (sorted(map(repr, self.facts)), self.upd)


def idiv(x, n):
    """x divided by a positive constant, rounded down; x not negative"""
    if x.op == 'app' and x.a[0] == 'divc':
        return App('divc', x.a[1], Int(x.a[2].a[1] * n))
    return App('divc', x, Int(n))


class Call:
    __slots__ = ('f', 'args', 'aty', 'dty', 'span', 'depth', 'dest')

    def __init__(self, f, args, aty, dty, span, depth, dest=None):
        self.f, self.args, self.aty, self.dty, self.span, self.depth, self.dest = f, args, aty, dty, span, depth, dest


FOREVER = 'never returns'
# each call takes one more element of a finite input
TAKES = ('MapAccess::next_key', 'MapAccess::next_key_seed', 'MapAccess::next_entry', 'MapAccess::next_entry_seed', 'SeqAccess::next_element', 'SeqAccess::next_element_seed',
         'Iterator::next', 'DoubleEndedIterator::next_back')


class Machine:
    def __init__(self, ir, models, opts=None):
        self.ir = ir
        self.models = models
        self.opts = opts or {}
        self.steps = 0
        self.fnvals = []
        self.fnidx = {}
        self.stack = []
        self.frames = []
        self.unranked = {}
        self.digging = None
        self.frame_body = {}
        self.bodies_seen = set()
        self.calls_seen = {}
        self.panic_sites = set()
        self._live = {}
        self._promo = {}
        self.at_head = False

    # ================================================================= entry
    def analyse(self, bid, args, st=None):
        st = st or State()
        self.steps = 0
        return self.exec_body(st, bid, args, 0)

    # ================================================================= bodies
    def exec_body(self, st, bid, args, depth):
        b = self.ir.bodies[bid]
        key = (bid, tuple(self.deep(st, a) for a in args))
        if key in self.frames:
            # the same function on the same values: it goes on for ever
            return [Out('panic', st, (FOREVER, 'recursion into ' + b['path'], b['span']))]
        if depth > 60 or self.stack.count(bid) >= (26 if self.digging == bid else 2):
            raise Undecided('recursion into %s' % b['path'])
        self.bodies_seen.add(bid)
        st = st.copy()
        st.nframe += 1
        fid = st.nframe
        self.frame_body[fid] = b
        n = b['argc']
        if b.get('spread') is not None and b.get('spread') is not False and len(args) != n:
            # last argument is spread
            pass
        if len(args) != n:
            raise Undecided('arity of %s: %d given, %d wanted' % (b['path'], len(args), n))
        for i, a in enumerate(args):
            st.cells[(fid, i + 1)] = a
        self.stack.append(bid)
        self.frames.append(key)
        try:
            outs = self.run_blocks(st, bid, fid, 0, None, None, depth)
        finally:
            self.stack.pop()
            self.frames.pop()
        res = []
        for o in outs:
            if o.kind == 'ret':
                s = o.st
                for c in [c for c in s.cells if c[0] == fid]:
                    del s.cells[c]
                res.append(o)
            else:
                res.append(o)
        return res

    def run_blocks(self, st, bid, fid, start, region, head, depth):
        ir = self.ir
        body = ir.bodies[bid]
        heads = ir.loops(bid)
        outs = []
        work = [(st, start, True)]
        while work:
            st, bb, first = work.pop()
            if region is not None and not first:
                if bb == head:
                    outs.append(Out('cont', st))
                    continue
                if bb not in region:
                    outs.append(Out('leave', st, bb))
                    continue
            if bb in heads and not (region is not None and bb == head):
                try:
                    lo = self.cfg_loop(st, bid, fid, bb, heads[bb], depth)
                except Undecided as e:
                    outs.append(Out('undec', st, e.why))
                    continue
                for o in lo:
                    if o.kind == 'leave':
                        work.append((o.st, o.val, False))
                    else:
                        outs.append(o)
                continue
            blk = body['blocks'][bb]
            head_here = region is not None and self.reaches_head(body, head, bb)
            try:
                for x in self.block(st, bid, fid, blk, depth, head_here):
                    if x[0] == 'go':
                        work.append((x[1], x[2], False))
                    elif x[0] == 'skip':
                        if region is None:
                            outs.append(Out('undec', x[1], 'filtered iterator outside a loop'))
                        else:
                            outs.append(Out('cont', x[1]))
                    else:
                        outs.append(Out(x[0], x[1], x[2]))
            except Dead:
                continue
            except Undecided as e:
                outs.append(Out('undec', st, '%s [%s]' % (e.why, body['path'])))
        return outs

    @staticmethod
    def reaches_head(body, head, bb):
        """bb is the loop head, or the head does nothing but lead to bb"""
        x = head
        for _ in range(8):
            if x == bb:
                return True
            b = body['blocks'][x]
            if b['t'][0] != 'goto' or any(s[0] == '=' and s[2][0] not in ('ref', 'use') for s in b['s']):
                return False
            x = b['t'][1]
        return False

    def block(self, st, bid, fid, blk, depth, at_head=False):
        """execute one block on st; returns list of ('go',st,bb) | ('ret',st,val) | ('panic',st,info) | ('undec',..)"""
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Undecided('step limit')
        for s in blk['s']:
            if s[0] == '=':
                v = self.rvalue(st, fid, s[2], depth)
                self.write(st, fid, s[1], v)
            elif s[0] == 'setdiscr':
                raise Undecided('set discriminant')
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [('go', st, t[1])]
        if k == 'drop':
            return [('go', st, t[1])]
        if k == 'ret':
            return [('ret', st, st.cells.get((fid, 0), UNIT))]
        if k == 'unreachable':
            return []
        if k == 'switch':
            return self.switch(st, fid, t, depth, self.ir.bodies[bid])
        if k == 'assert':
            if t[4].startswith(('MisalignedPointer', 'NullPointer')):
                # inserted by the compiler for places it dereferences itself (vec! literals); there is no unsafe code
                return [('go', st, t[3])]
            c = self.operand(st, fid, t[1], depth)
            out = []
            for s2, v in self.fork_bool(st, c):
                if v == t[2]:
                    out.append(('go', s2, t[3]))
                else:
                    out.append(('panic', s2, ('assert', t[4].split('(')[0], self.ir.bodies[bid]['path'], c)))
            return out
        if k == 'call':
            return self.call_term(st, bid, fid, t, depth, at_head)
        raise Undecided('terminator %s' % k)

    @staticmethod
    def landing(body, bb):
        """what a jump to bb does: the block itself, or the statements and successor it shares with others"""
        seen = set()
        while bb not in seen:
            seen.add(bb)
            b = body['blocks'][bb]
            if b is None or b['t'][0] != 'goto':
                break
            if any(x[0] == '=' for x in b['s']):
                nxt = b['t'][1]
                return (repr([x for x in b['s'] if x[0] == '=']), nxt)
            bb = b['t'][1]
        return bb

    def switch(self, st, fid, t, depth, body=None):
        d = self.operand(st, fid, t[1], depth)
        arms, other = t[2], t[3]
        ty = self.ir.types[t[4]]
        out = []
        if d.op == 'discr':
            x, adt = d.a
            v = st.variant(x)
            if v is not None:
                dv = self.ir.discr_of(adt, v)
                for val, bb in arms:
                    if val == dv:
                        return [('go', st, bb)]
                return [('go', st, other)]
            uni = [w['n'] for w in self.ir.variants(adt)]
            rest_ = [w for w in uni if w not in st.nvar.get(x, ())]
            if body is not None and len(uni) > 2 and not any(w['f'] for w in self.ir.variants(adt)):
                # a plain enumeration: one path per distinct landing
                groups = {}
                named = {}
                for val, bb in arms:
                    w = self.ir.variant_by_discr(adt, val)
                    if w is not None:
                        named[w] = bb
                for w in rest_:
                    bb = named.get(w, other)
                    groups.setdefault(self.landing(body, bb), []).append((w, bb))
                for g in groups.values():
                    keep = {w for w, _ in g}
                    s2 = st.copy()
                    try:
                        if len(g) == 1:
                            s2.set_variant(x, g[0][0])
                        else:
                            for w in uni:
                                if w not in keep:
                                    s2.exclude(x, w, uni)
                        out.append(('go', s2, g[0][1]))
                    except Dead:
                        pass
                return out
            for val, bb in arms:
                w = self.ir.variant_by_discr(adt, val)
                if w in rest_:
                    s2 = st.copy()
                    try:
                        s2.set_variant(x, w)
                        out.append(('go', s2, bb))
                    except Dead:
                        pass
                    rest_.remove(w)
            if len(rest_) == 1:
                s2 = st.copy()
                try:
                    s2.set_variant(x, rest_[0])
                    out.append(('go', s2, other))
                except Dead:
                    pass
            elif rest_:
                s2 = st.copy()
                try:
                    for val, bb in arms:
                        w = self.ir.variant_by_discr(adt, val)
                        if w is not None:
                            s2.exclude(x, w, uni)
                    out.append(('go', s2, other))
                except Dead:
                    pass
            return out
        if ty['k'] == 'bool':
            # arms: [[0, bb]] else
            for s2, v in self.fork_bool(st, d):
                tgt = other
                for val, bb in arms:
                    if val == int(v):
                        tgt = bb
                out.append(('go', s2, tgt))
            return out
        if d.op == 'c':
            val0 = d.a[1]
            if d.a[0] == 'char':
                val0 = ord(val0)
            for val, bb in arms:
                if val == val0:
                    return [('go', st, bb)]
            return [('go', st, other)]
        cur = st
        for val, bb in arms:
            c = IntCmp('Eq', d, Int(val)) if ty['s'] != 'char' else Eq(d, T('c', 'char', chr(val)))
            dec = cur.decide(c)
            if dec is not False:
                s2 = cur.copy()
                try:
                    s2.assume(c, True)
                    out.append(('go', s2, bb))
                except Dead:
                    pass
            if dec is True:
                return out
            cur = cur.copy()
            try:
                cur.assume(c, False)
            except Dead:
                return out
        out.append(('go', cur, other))
        return out

    def fork_bool(self, st, c):
        """[(state, bool)] for the possible truth values of c"""
        if c.op == 'and':
            res = []
            for s, v in self.fork_bool(st, c.a[0]):
                if not v:
                    res.append((s, False))
                else:
                    res += self.fork_bool(s, c.a[1])
            return res
        if c.op == 'or':
            res = []
            for s, v in self.fork_bool(st, c.a[0]):
                if v:
                    res.append((s, True))
                else:
                    res += self.fork_bool(s, c.a[1])
            return res
        if c.op == 'not':
            return [(s, not v) for s, v in self.fork_bool(st, c.a[0])]
        if c.op == 'eqdiscr':
            a, b, uni = c.a
            res = []
            for s, v in self.fork_variant(st, a.a[0], a.a[1]):
                res += self.fork_bool(s, T('isvar', b.a[0], v, uni))
            return res
        if c.op == 'iff':
            res = []
            for s, v in self.fork_bool(st, c.a[0]):
                for s2, w in self.fork_bool(s, c.a[1]):
                    res.append((s2, v == w))
            return res
        if c.op in ('le0', 'eq0'):
            # truth values counted
            k, parts = lin_parts(c.a[0])
            for x in parts:
                if x.op == 'app' and x.a[0] == 'b2i' and len(x.a) == 2:
                    res = []
                    for s, v in self.fork_bool(st, x.a[1]):
                        q = {y: n for y, n in parts.items() if y is not x}
                        q = mk_lin(k + (parts[x] if v else 0), q)
                        res += self.fork_bool(s, Le0(q) if c.op == 'le0' else IntCmp('Eq', q, Int(0)))
                    return res
        d = st.decide(c)
        if d is not None:
            return [(st, d)]
        out = []
        for v in (True, False):
            s2 = st.copy()
            try:
                s2.assume(c, v)
                out.append((s2, v))
            except Dead:
                pass
        return out

    def fork_variant(self, st, t, adt, only=None):
        """[(state, variant name)]"""
        v = st.variant(t)
        if v is not None:
            return [(st, v)]
        out = []
        uni = [w['n'] for w in self.ir.variants(adt)]
        for w in uni:
            if w in st.nvar.get(t, ()):
                continue
            s2 = st.copy()
            try:
                s2.set_variant(t, w)
                out.append((s2, w))
            except Dead:
                pass
        return out

    # ================================================================= places
    def cell_of(self, st, fid, p):
        """resolve a place to (cell, path list); path elements: ('f',variant,name) | ('i',term)"""
        cell = (fid, p[0])
        path = []
        vname = ''
        for e in p[1]:
            if e[0] == '*':
                v = self.read_cell(st, cell, path)
                if v.op == 'mref':
                    cell = v.a[0]
                    path = list(v.a[1])
                continue
            v0 = None
            # field access through a mutable reference held in a transparent position (Box<&mut>, &&mut)
            if e[0] == 'v':
                vname = e[2]
                continue
            if e[0] == 'f':
                path = path + [('f', vname, e[2])]
            elif e[0] == 'i':
                path = path + [('i', st.cells[(fid, e[1])])]
            elif e[0] == 'ci':
                path = path + [('ci', e[1], e[3])]
            elif e[0] == 'sub':
                path = path + [('sub', e[1], e[2], e[3])]
            else:
                raise Undecided('projection %r' % (e,))
            vname = ''
        return cell, path

    def read_cell(self, st, cell, path):
        if cell not in st.cells:
            raise Undecided('uninitialised cell')
        v = st.cells[cell]
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if v.op == 'mref':
            v = self.read_cell(st, v.a[0], v.a[1])
        if e[0] == 'f':
            r = fld(v, e[1], e[2])
            if r.op == 'dead':
                raise Dead()
            return r
        if e[0] == 'i':
            return at(v, e[1])
        if e[0] == 'ci':
            if e[2]:
                return at(v, lin_add(length(v), Int(e[1]), -1))
            return at(v, Int(e[1]))
        if e[0] == 'sub':
            if v.op == 'arr':
                n = len(v.a)
                return T('arr', *v.a[e[1]:(n - e[2] if e[3] else e[2])])
            return subseq(v, Int(e[1]), lin_add(length(v), Int(e[2]), -1) if e[3] else Int(e[2]))
        raise Undecided('projection')

    def update(self, st, v, path, x):
        if not path:
            return x
        e = path[0]
        if v.op == 'mref':
            raise Undecided('write through nested reference')
        if e[0] == 'f':
            sub = fld(v, e[1], e[2]) if len(path) > 1 else None
            return setfld(v, e[1], e[2], self.update(st, sub, path[1:], x) if len(path) > 1 else x)
        if e[0] == 'i' and v.op == 'arr' and is_int(e[1]):
            l = list(v.a)
            i = e[1].a[1]
            l[i] = self.update(st, l[i], path[1:], x)
            return T('arr', *l)
        raise Undecided('write to element')

    def write_cell(self, st, cell, path, x):
        if not path:
            st.cells[cell] = x
            return
        if cell not in st.cells:
            # piecewise initialisation of an aggregate
            st.cells[cell] = T('uninit')
        v = st.cells[cell]
        # a mutable reference along the path
        for i in range(len(path)):
            w = v
            for e in path[:i]:
                w = fld(w, e[1], e[2]) if e[0] == 'f' else w
            if w.op == 'mref':
                return self.write_cell(st, w.a[0], list(w.a[1]) + list(path[i:]), x)
        st.cells[cell] = self.update(st, v, path, x)

    def read(self, st, fid, p):
        cell, path = self.cell_of(st, fid, p)
        return self.read_cell(st, cell, path)

    def write(self, st, fid, p, x):
        if not p[1]:
            st.cells[(fid, p[0])] = x
            return
        cell, path = self.cell_of(st, fid, p)
        self.write_cell(st, cell, path, x)

    def deref(self, st, v):
        while v.op == 'mref':
            v = self.read_cell(st, v.a[0], v.a[1])
        return v

    def deep(self, st, v, n=0):
        """v with every reference in it replaced by what it refers to"""
        v = self.deref(st, v)
        if n > 12 or not contains(v, lambda t: t.op == 'mref'):
            return v
        part = lambda x: self.deep(st, x, n + 1) if isinstance(x, T) else tuple(part(y) for y in x) if isinstance(x, tuple) else x
        return T(v.op, *[part(x) for x in v.a])

    def assign_mref(self, st, m, x):
        if m.op != 'mref':
            raise Undecided('assignment through a non-reference')
        # chains of &mut &mut
        v = self.read_cell(st, m.a[0], m.a[1])
        while v.op == 'mref':
            m = v
            v = self.read_cell(st, m.a[0], m.a[1])
        self.write_cell(st, m.a[0], list(m.a[1]), x)

    def resolve_mref(self, st, m):
        """the innermost reference of a chain of mutable references"""
        while True:
            v = self.read_cell(st, m.a[0], m.a[1])
            if v.op != 'mref':
                return m
            m = v

    def alloc(self, st, v):
        st.nframe += 1
        c = (st.nframe, 0)
        st.cells[c] = v
        return c, T('mref', c, ())

    # ================================================================= operands, rvalues
    def fnval(self, f):
        k = (f.get('rpath') or f.get('path') or 'indirect', f.get('body'), tuple(f.get('targs', ())))
        i = self.fnidx.get(k)
        if i is None:
            i = len(self.fnvals)
            self.fnvals.append(f)
            self.fnidx[k] = i
        return T('fnv', i)

    def operand(self, st, fid, o, depth=0):
        k = o[0]
        if k in ('cp', 'mv'):
            return self.read(st, fid, o[1])
        if k == 'int':
            return Int(o[1])
        if k == 'bool':
            return Bool(o[1])
        if k == 'str':
            return Str(o[1])
        if k == 'char':
            return T('c', 'char', o[1])
        if k == 'bytes':
            return T('c', 'bytes', tuple(o[1]))
        if k == 'zst':
            t = self.ir.types[o[1]]
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt':
                vs = self.ir.variants(t['p'])
                return T('adt', t['p'], vs[0]['n'] if vs else '', ())
            return T('zst', t['s'])
        if k == 'fn':
            return self.fnval(o[1])
        if k == 'cadt':
            return T('adt', o[1], o[3], tuple((n, self.operand(st, fid, x)) for n, x in zip(o[4], o[5])))
        if k == 'ctup':
            return T('tup', *[self.operand(st, fid, x) for x in o[1]])
        if k == 'carr':
            return T('arr', *[self.operand(st, fid, x) for x in o[1]])
        if k == 'body':
            return self.const_body(o[1])
        if k == 'clo':
            return T('clo', o[2], o[1], ())
        if k == 'static':
            return self.const_body(o[2]) if o[2] is not None else T('static', o[1])
        if k == 'bits':
            return T('c', 'bits', o[1])
        if k == 'unk':
            return App('const:' + str(o[1]))
        raise Undecided('operand %r' % (o,))

    def const_body(self, bid):
        if bid in self._promo:
            return self._promo[bid]
        outs = [o for o in self.exec_body(State(), bid, [], 1) if o.kind == 'ret']
        if len(outs) != 1:
            v = App('const:%s' % self.ir.bodies[bid]['path'])
        else:
            v = self.deref(outs[0].st, outs[0].val) if outs[0].val.op == 'mref' else outs[0].val
        self._promo[bid] = v
        return v

    def rvalue(self, st, fid, r, depth):
        k = r[0]
        if k == 'use':
            return self.operand(st, fid, r[1], depth)
        if k == 'ref':
            cell, path = self.cell_of(st, fid, r[2])
            if r[1]:
                if not r[2][1] or True:
                    # a mutable place: keep a reference when the cell is live
                    if cell in st.cells:
                        v = self.read_cell(st, cell, path)
                        if v.op == 'mref' and r[2][1] and r[2][1][-1][0] == '*':
                            return v
                    return T('mref', cell, tuple(path))
            v = self.read_cell(st, cell, path)
            return v
        if k == 'adt':
            fs = tuple((n, self.operand(st, fid, x)) for n, x in zip(r[4], r[5]))
            return T('adt', r[1], r[3], fs)
        if k == 'tup':
            return T('tup', *[self.operand(st, fid, x) for x in r[1]])
        if k == 'arr':
            return T('arr', *[self.operand(st, fid, x) for x in r[1]])
        if k == 'repeat':
            v = self.operand(st, fid, r[1])
            if r[2] is not None and r[2] <= 16:
                return T('arr', *([v] * r[2]))
            return App('repeat', v)
        if k == 'closure':
            return T('clo', r[3], r[1], tuple(self.operand(st, fid, x) for x in r[2]))
        if k == 'discr':
            v = self.deref(st, self.read(st, fid, r[1]))
            ti = self.ir.peel(r[2])
            t = self.ir.types[ti]
            return self.discr(st, v, t)
        if k == 'bin':
            a = self.operand(st, fid, r[2])
            b = self.operand(st, fid, r[3])
            return self.binop(st, r[1], a, b, self.ir.types[r[4]])
        if k == 'un':
            a = self.operand(st, fid, r[2])
            if a is ADDR:
                return a
            if r[1] == 'Not':
                return self.bnot(a)
            if r[1] == 'Neg':
                return lin_scale(a, -1)
            if r[1] == 'PtrMetadata':
                return length(self.deref(st, a))
            return App('un' + r[1], a)
        if k == 'cast' and r[1] == 'BoxDerefTransmute' and r[2][0] in ('cp', 'mv') and r[2][1][1]:
            # the pointer inside a box: a reference to the boxed value
            l, pr = r[2][1]
            cell, path = self.cell_of(st, fid, [l, pr[:-1]])
            v = self.read_cell(st, cell, path)
            return v if v.op == 'mref' else T('mref', cell, tuple(path))
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, fid, r[2]), self.ir.types[r[3]], self.ir.types[r[4]])
        if k == 'rawptr':
            return self.operand(st, fid, r[1][0])
        raise Undecided('rvalue %s' % k)

    def bnot(self, a):
        if a.op in ('and', 'or'):
            return T('or' if a.op == 'and' else 'and', self.bnot(a.a[0]), self.bnot(a.a[1]))
        return Not(a)

    def discr(self, st, v, t):
        if t['k'] != 'adt':
            return Int(0)
        adt = t['p']
        w = st.variant(v)
        if w is not None:
            d = self.ir.discr_of(adt, w)
            if d is not None:
                return Int(d)
        return T('discr', v, adt)

    RANGES = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
              'usize': (0, 2**64 - 1), 'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
              'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1)}

    def note_range(self, st, v, ty):
        """every atom of integer type lies in its type's range"""
        r = self.RANGES.get(ty['s'])
        if r is None or is_int(v) or v.op == 'lin':
            return
        lo, hi = st.lin_range(v)
        if lo is None or lo < r[0]:
            st.assume_le(lin_scale(v, -1), -r[0])
        if hi is None or hi > r[1]:
            st.assume_le(v, r[1])

    def binop(self, st, op, a, b, ty):
        a = self.deref(st, a)
        b = self.deref(st, b)
        if a is ADDR or b is ADDR:
            return ADDR
        for x in (a, b):
            if ty['s'] in self.RANGES and x.op not in ('discr',):
                self.note_range(st, x, ty)
        if op in ('Eq', 'Ne'):
            if a.op == 'discr' or b.op == 'discr':
                if b.op == 'discr' and a.op != 'discr':
                    a, b = b, a
                adt = a.a[1]
                uni = tuple(w['n'] for w in self.ir.variants(adt))
                if is_int(b):
                    w = self.ir.variant_by_discr(adt, b.a[1])
                    r = T('isvar', a.a[0], w, uni) if w is not None else FALSE
                else:
                    if a is b:
                        r = TRUE
                    else:
                        r = T('eqdiscr', a, b, uni)
                return r if op == 'Eq' else Not(r)
            if ty['k'] == 'bool':
                r = self.booleq(a, b)
                return r if op == 'Eq' else self.bnot(r)
            if ty['s'] in self.RANGES:
                z = self.zero_test(op, a, b)
                return IntCmp(op, a, b) if z is None else z
            r = Eq(a, b)
            return r if op == 'Eq' else Not(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if (a.op == 'discr') != (b.op == 'discr') and is_int(a if b.op == 'discr' else b):
                # an order test on an enumeration: which kinds satisfy it
                x, n = (a, b.a[1]) if a.op == 'discr' else (b, a.a[1])
                uni = tuple(w['n'] for w in self.ir.variants(x.a[1]))
                r = FALSE
                for w in uni:
                    l, h = (self.ir.discr_of(x.a[1], w), n) if x is a else (n, self.ir.discr_of(x.a[1], w))
                    if {'Lt': l < h, 'Le': l <= h, 'Gt': l > h, 'Ge': l >= h}[op]:
                        y = T('isvar', x.a[0], w, uni)
                        r = y if r is FALSE else T('or', r, y)
                return r
            if ty['s'] in self.RANGES:
                z = self.zero_test(op, a, b) if ty['s'].startswith('u') else None
                return IntCmp(op, a, b) if z is None else z
            return App('cmp' + op, a, b)
        if ty['k'] == 'bool':
            if op == 'BitAnd':
                if a.op == 'c':
                    return b if a.a[1] else FALSE
                if b.op == 'c':
                    return a if b.a[1] else FALSE
                return Both(a, b)
            if op == 'BitOr':
                if a.op == 'c':
                    return TRUE if a.a[1] else b
                if b.op == 'c':
                    return TRUE if b.a[1] else a
                return T('or', a, b)
            if op == 'BitXor':
                return self.bnot(self.booleq(a, b))
        ovf = op.endswith('WithOverflow')
        o = op[:-12] if ovf else op
        if o.endswith('Unchecked'):
            o = o[:-9]
        r = None
        if o == 'Add':
            r = lin_add(a, b)
        elif o == 'Sub':
            r = lin_add(a, b, -1)
        elif o == 'Mul':
            if is_int(a):
                r = lin_scale(b, a.a[1])
            elif is_int(b):
                r = lin_scale(a, b.a[1])
        elif o == 'Div' and is_int(b) and b.a[1] > 0:
            if is_int(a):
                q = abs(a.a[1]) // b.a[1]
                return Int(q if a.a[1] >= 0 else -q)
            if ty['s'].startswith('u'):
                return idiv(a, b.a[1])
        elif o == 'Rem' and is_int(a) and is_int(b) and b.a[1] > 0 and a.a[1] >= 0:
            return Int(a.a[1] % b.a[1])
        if r is None:
            r = App('op' + o, a, b)
        if ovf:
            return T('tup', r, self.overflow(st, r, ty))
        return r

    def overflow(self, st, r, ty):
        rg = self.RANGES.get(ty['s'])
        if rg is None:
            return App('ovf', r)
        lo, hi = st.lin_range(r)
        if lo is not None and hi is not None and lo >= rg[0] and hi <= rg[1]:
            return FALSE
        # a usize counter of in-memory things cannot reach the end of its range
        if ty['s'] == 'usize':
            n, at_ = lin_parts(r)
            if n < 2**32 and all(self.counterlike(x) for x in at_) and (lo is not None and lo >= 0 or n >= 0 and all(c > 0 for c in at_.values()) and r.op == 'lin'):
                return FALSE
        parts = []
        if hi is None or hi > rg[1]:
            parts.append(Not(Le0(lin_add(r, Int(rg[1]), -1))))
        if lo is None or lo < rg[0]:
            parts.append(Not(Le0(lin_add(Int(rg[0]), r, -1))))
        parts = [p for p in parts if not (p.op == 'c' and not p.a[1])]
        if not parts:
            return FALSE
        return parts[0] if len(parts) == 1 else T('or', parts[0], parts[1])

    @staticmethod
    def counterlike(x):
        return x.op in ('k', 'phi') or (x.op == 'app' and x.a[0] in ('len', 'nseg', 'count', 'b2i'))

    def zero_test(self, op, a, b):
        """a comparison that asks whether a combination of differences is zero, or None"""
        if is_int(a) and not is_int(b):
            return self.zero_test({'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op), b, a)
        if not is_int(b):
            return None
        n = b.a[1]
        one = a.op == 'app' and a.a[0] == 'b2i'
        if (op, n) in (('Eq', 0), ('Le', 0), ('Lt', 1)) or one and (op, n) == ('Ne', 1):
            return self.zero(a)
        if (op, n) in (('Ne', 0), ('Gt', 0), ('Ge', 1)) or one and (op, n) == ('Eq', 1):
            z = self.zero(a)
            return None if z is None else self.bnot(z)
        return None

    def zero(self, t):
        """condition under which a combination of differences is zero, or None"""
        if t.op != 'app':
            return None
        f = t.a[0]
        if f == 'b2i':
            return self.bnot(t.a[1])
        if f in ('opBitXor', 'absdiff') and len(t.a) == 3:
            return IntCmp('Eq', t.a[1], t.a[2])
        if f == 'opBitOr' and len(t.a) == 3:
            r = []
            for x in t.a[1:]:
                z = self.zero(x)
                r.append(IntCmp('Eq', x, Int(0)) if z is None else z)
            return Both(*r)
        return None

    def booleq(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'c' and b.op == 'c':
            return Bool(a.a[1] == b.a[1])
        if a.op == 'c':
            return b if a.a[1] else self.bnot(b)
        if b.op == 'c':
            return a if b.a[1] else self.bnot(a)
        return T('iff', a, b)

    def cast(self, st, kind, v, to, frm):
        if kind.startswith('IntToInt'):
            if v.op == 'discr':
                # enum as integer: its discriminant where the type holds every one of them
                rg = self.RANGES.get(to['s'])
                if rg and all(rg[0] <= self.ir.discr_of(v.a[1], w['n']) <= rg[1] for w in self.ir.variants(v.a[1])):
                    return v
                return App('discr_int', v)
            if frm['k'] == 'bool':
                if v.op == 'c':
                    return Int(int(v.a[1]))
                return App('b2i', v)
            if is_int(v):
                rg = self.RANGES.get(to['s'])
                n = v.a[1]
                if rg and not (rg[0] <= n <= rg[1]):
                    w = rg[1] - rg[0] + 1
                    n = (n - rg[0]) % w + rg[0]
                return Int(n)
            if frm['s'] in self.RANGES:
                self.note_range(st, v, frm)
            rg = self.RANGES.get(to['s'])
            lo, hi = st.lin_range(v)
            if rg and lo is not None and hi is not None and lo >= rg[0] and hi <= rg[1]:
                return v
            return App('as_' + to['s'], v)
        if frm['k'] in ('ptr', 'ref') and to['k'] == 'int':
            return ADDR
        if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind.startswith('Transmute') or kind.startswith('Subtype'):
            if kind.startswith('PtrToPtr') or kind.startswith('Transmute'):
                # reading an enum through a pointer to its repr type
                ft = self.ir.types[self.ir.peel(self.ir.types.index(frm))] if frm['k'] in ('ptr', 'ref') else frm
                tt = to
                if to['k'] == 'ptr':
                    tt = self.ir.types[to['a'][0]]
                    return self.ptr_cast(st, v, ft, tt)
            return v
        return App('cast_' + to['s'], v)

    def ptr_cast(self, st, v, ft, tt):
        v = self.deref(st, v)
        if ft['k'] == 'adt' and tt['k'] == 'int' and ft['p'] in self.ir.adts:
            a = self.ir.adts[ft['p']]
            if a['kind'] == 'enum':
                w = {'u8': 'I8', 'i8': 'I8', 'u16': 'I16', 'u32': 'I32', 'i32': 'I32', 'u64': 'I64', 'i64': 'I64'}.get(tt['s'], '?')
                if a['repr'].find(w) >= 0:
                    return self.discr(st, v, ft)
                return App('garbage_read', v)
        if ft == tt or ft['s'] == tt['s']:
            return v
        return v

    # ================================================================= calls
    def call_term(self, st, bid, fid, t, depth, at_head=False):
        f, ops, dest, target, dty, aty = t[1], t[2], t[3], t[4], t[5], t[6]
        span = t[7] if len(t) > 7 else ''
        if f['kind'] == 'indirect':
            fv = self.operand(st, fid, f['op'])
            args = [self.operand(st, fid, o) for o in ops]
            res = self.call_value(st, fv, args, depth, dty)
        else:
            args = [self.operand(st, fid, o) for o in ops]
            self.at_head = at_head
            res = self.call(st, Call(f, args, aty, dty, span, depth, dest))
        out = []
        for o in res:
            if o.kind == 'ret':
                if target is None:
                    out.append(('panic', o.st, ('does not return', f.get('path', '?'), span)))
                    continue
                self.write(o.st, fid, dest, o.val)
                out.append(('go', o.st, target))
            elif o.kind == 'skip':
                out.append(('skip', o.st, None))
            else:
                out.append((o.kind, o.st, o.val))
        return out

    def call(self, st, c):
        f = c.f
        p = f['path']
        key = (p, f.get('rpath') or '')
        self.calls_seen[key] = self.calls_seen.get(key, 0) + 1
        r = self.models.apply(self, st, c)
        self.at_head = False
        if r is not None:
            return r
        if 'body' in f:
            b = self.ir.bodies[f['body']]
            args = list(c.args)
            if len(args) != b['argc']:
                args = self.untuple(st, f, args, b)
            n = self.stack.count(f['body'])
            if not (n >= 1 and (b['derived'] or n >= 2)):
                return self.exec_body(st, f['body'], args, c.depth + 1)
            if not b['derived']:
                how = self.recurse(st, f['body'], args, b)
                if how == 'digits' and n < 24:
                    was, self.digging = self.digging, f['body']
                    try:
                        return self.exec_body(st, f['body'], args, c.depth + 1)
                    finally:
                        self.digging = was
        return self.models.opaque(self, st, c)

    def recurse(self, st, bid, args, b):
        """a function that calls itself again: something has to get smaller"""
        now = [self.deep(st, a) for a in args]
        prev = [k[1] for k in self.frames if k[0] == bid][-1]
        for x, y in zip(now, prev):
            if x is y:
                continue
            if y.op not in ('adt', 'tup', 'mref', 'it', 'ad'):
                if st.decide_le(lin_add(length(x), length(y), -1), -1):
                    return 'length'
            if y.op in ('p', 'f', 'app', 'lin', 'phi', 'at'):
                lo = st.lin_range(y)[0]
                if lo is not None and st.decide_le(lin_add(x, y, -1), -1):
                    return 'number'
                if x.op == 'app' and x.a[0] == 'divc' and x is idiv(y, x.a[2].a[1] if x.a[1] is y else x.a[2].a[1] // y.a[2].a[1] if y.op == 'app' and y.a[0] == 'divc' else 1):
                    return 'digits'
            if x.op in ('f', 'at') and contains(x, lambda t: t is y):
                return 'part'
        self.unranked.setdefault('recursion into ' + b['path'], set()).update(self.stack[:1])

    def untuple(self, st, f, args, b):
        """closure bodies called through the rust-call ABI: (self, (args...))"""
        if len(args) == 2 and args[1].op == 'tup' and 1 + len(args[1].a) == b['argc']:
            return [args[0]] + list(args[1].a)
        if len(args) == 2 and b['argc'] > 2:
            return [args[0]] + [fld(args[1], '', str(i)) for i in range(b['argc'] - 1)]
        return args

    def call_value(self, st, fv, args, depth, dty=None):
        """call a closure or function value with positional arguments"""
        f0 = fv
        fv = self.deref(st, fv)
        if fv.op == 'clo':
            bid = fv.a[0]
            b = self.ir.bodies[bid]
            selfv = fv
            if b['argc'] == len(args) + 1:
                t1 = self.ir.types[b['locals'][1]]
                if t1['k'] == 'ref' and t1.get('mut') and f0.op != 'mref':
                    _, selfv = self.alloc(st, fv)
                elif t1['k'] == 'ref' and t1.get('mut'):
                    selfv = f0
                return self.exec_body(st, bid, [selfv] + list(args), depth + 1)
            raise Undecided('closure arity')
        if fv.op == 'fnv':
            f = self.fnvals[fv.a[0]]
            return self.call(st, Call(f, list(args), self.fn_argtys(f, args), dty if dty is not None else self.fn_retty(f), '', depth + 1))
        # opaque callable
        return [Out('ret', st, App('callv', fv, *[self.deref(st, a) for a in args]))]

    def fn_argtys(self, f, args):
        if 'body' in f:
            b = self.ir.bodies[f['body']]
            return b['locals'][1:1 + b['argc']]
        if f.get('targs'):
            return [f['targs'][0]] * len(args)
        return [None] * len(args)

    def fn_retty(self, f):
        if 'body' in f:
            return self.ir.bodies[f['body']]['locals'][0]
        return None

    # ================================================================= loops
    def live_at(self, bid, bb):
        """locals whose value may be read from block bb on, before being overwritten"""
        if bid not in self._live:
            self._live[bid] = liveness(self.ir, bid)
        return self._live[bid][bb]

    def cfg_loop(self, st, bid, fid, head, region, depth):
        live = self.live_at(bid, head)

        def relevant(cell):
            return cell[0] != fid or cell[1] in live

        def runner(s):
            return self.run_blocks(s, bid, fid, head, region, head, depth)

        return self.loop_core(st, runner, relevant, '%s' % self.ir.bodies[bid]['path'])

    def iter_src(self, v):
        """base (source, position) list of an iterator value"""
        if v.op == 'it':
            return [(v.a[0], v.a[1])]
        if v.op == 'ad':
            r = []
            for x in v.a[1:]:
                if isinstance(x, T) and x.op in ('it', 'ad'):
                    r += self.iter_src(x)
            return r
        return []

    def generic_iter(self, v, lid):
        if v.op == 'it':
            return T('it', v.a[0], T('k', lid), v.a[1] if v.a[1].op != 'k' else Int(0))
        return T('ad', v.a[0], *[self.generic_iter(x, lid) if isinstance(x, T) and x.op in ('it', 'ad') else x for x in v.a[1:]])

    @staticmethod
    def settle_iter(v):
        """forget that a generic iterator has been advanced"""
        if v.op == 'it':
            return T('it', v.a[0], T('k', v.a[1].a[0]), *v.a[2:]) if v.a[1].op == 'kn' else v
        if v.op == 'ad':
            return T('ad', v.a[0], *[Machine.settle_iter(x) if isinstance(x, T) and x.op in ('it', 'ad') else x for x in v.a[1:]])
        return v

    @staticmethod
    def parts(cell, v):
        """the components of a pair or record, under names derived from the cell that holds it"""
        if v.op == 'adt':
            return {(cell, v.a[1], n): x for n, x in v.a[2]}
        if v.op == 'tup':
            return {(cell, '', str(i)): x for i, x in enumerate(v.a)}
        return {}

    def alpha(self, st, v, lid, cell, init):
        """abstraction of the value of a changing cell at the loop head; returns (head value, node key)"""
        if v.op in ('it', 'ad'):
            return self.generic_iter(v, lid), 'it'
        if v.op == 'c' and v.a[0] in ('bool',):
            return v, v
        if v.op == 'mref':
            return v, v
        if v.op == 'adt':
            fs = []
            for n, x in v.a[2]:
                if x.op == 'c' and x.a[0] == 'bool':
                    fs.append((n, x))
                elif x.op == 'tup' and not x.a:
                    fs.append((n, x))
                else:
                    fs.append((n, T('phi', lid, (cell, v.a[1], n))))
            r = T('adt', v.a[0], v.a[1], tuple(fs))
            return r, r
        if v.op == 'tup' and v.a and not any(x.op in ('it', 'ad') for x in v.a):
            r = T('tup', *[x if x.op == 'c' and x.a[0] == 'bool' or x.op == 'mref' or x.op == 'tup' and not x.a else T('phi', lid, (cell, '', str(i))) for i, x in enumerate(v.a)])
            return r, r
        return T('phi', lid, cell), 'phi'

    def loop_core(self, st0, runner, relevant, where, depth=0):
        st0 = st0.copy()
        # finite, known sources are unrolled
        probe = runner(st0.copy())
        conts = [o for o in probe if o.kind == 'cont']
        if not conts:
            return probe
        changed = set()
        for o in conts:
            for c, v in st0.cells.items():
                if relevant(c) and o.st.cells.get(c) is not v:
                    changed.add(c)
        its = [c for c in changed if st0.cells[c].op in ('it', 'ad')]
        srcs = [s for c in its for s in self.iter_src(st0.cells[c])]
        fin = [s for s, p in srcs if is_int(p) and is_int(length(s)) and length(s).a[1] <= 24]
        if fin and depth < 26:
            out = [o for o in probe if o.kind != 'cont']
            for o in conts:
                out += self.loop_core(o.st, runner, relevant, where, depth + 1)
            return out
        if not changed and conts:
            # nothing changes: the iteration repeats itself or leaves
            return [o for o in probe if o.kind != 'cont'] + [Out('panic', o.st, (FOREVER, 'loop', where)) for o in conts]
        lid = st0.nloop + 1
        st0.nloop = lid
        index_cells = {}
        cursors = {}
        collapse = set()
        flat = bool(self.opts.get('flat_loops'))
        for _ in range(14):
            restart = False
            nodes = {}
            order = []
            edges = []
            exits = []

            def node_of(s):
                hv = {}
                key = []
                for c in sorted(changed, key=repr):
                    v = self.settle_iter(s.cells.get(c, T('uninit')))
                    if c in index_cells:
                        hv[c] = lin_add(T('k', lid), index_cells[c])
                        key.append('idx')
                        continue
                    if c in cursors:
                        hv[c] = cursors[c](T('k', lid))
                        key.append('cursor')
                        continue
                    if c in collapse:
                        hv[c] = T('phi', lid, c)
                        key.append('phi')
                        continue
                    if v.op in ('it', 'ad'):
                        hv[c] = self.generic_iter(st0.cells[c], lid)
                        key.append('it')
                        continue
                    if flat and not (v.op == 'c' and v.a[0] == 'bool') and v.op != 'mref':
                        hv[c] = T('phi', lid, c)
                        key.append('phi')
                        continue
                    h, k = self.alpha(s, v, lid, c, st0.cells[c])
                    hv[c] = h
                    key.append(k)
                return tuple(key), hv

            k0, hv0 = node_of(st0)
            nodes[k0] = hv0
            order.append(k0)
            qi = 0
            while qi < len(order) and not restart:
                nk = order[qi]
                qi += 1
                hs = st0.copy()
                for c, v in nodes[nk].items():
                    hs.cells[c] = v
                base_facts = hs.facts()
                nf, ne, nl = len(hs.foralls), len(hs.exists), len(hs.log)
                for o in runner(hs.copy()):
                    if o.kind != 'cont':
                        exits.append((nk, o))
                        continue
                    for c in list(st0.cells):
                        if not relevant(c) or c in changed:
                            continue
                        if o.st.cells.get(c) is not st0.cells[c]:
                            changed.add(c)
                            restart = True
                    if restart:
                        break
                    k2, hv2 = node_of(o.st)
                    upd = {}
                    moved = k2 != nk
                    for c in changed:
                        nv = o.st.cells.get(c, T('uninit'))
                        ov = nodes[nk][c]
                        moved = moved or nv is not ov
                        if ov.op in ('it', 'ad'):
                            continue
                        if nv is not ov:
                            upd[c] = nv
                            # the parts of a pair or record as well
                            po, pn = self.parts(c, ov), self.parts(c, nv)
                            if po.keys() == pn.keys():
                                upd.update({q: pn[q] for q in po if pn[q] is not po[q]})
                    fs = frozenset(o.st.facts() - base_facts)
                    if not moved:
                        exits.append((nk, Out('panic', o.st, (FOREVER, 'loop', where))))
                    e = Edge(nk, k2, fs, upd, o.st.foralls[nf:], o.st.exists[ne:], o.st.log[nl:])
                    e.rank = self.measures(o.st, nodes[nk], o.st.cells, changed, lid)
                    if any(x and isinstance(x[0], str) and x[0].endswith(TAKES) for x in e.log):
                        e.rank.add(('input', ''))
                    edges.append(e)
                    if k2 not in nodes:
                        if len(nodes) > 24:
                            if flat:
                                raise Undecided('loop state space of %s' % where)
                            flat = restart = True
                            break
                        nodes[k2] = hv2
                        order.append(k2)
            if restart:
                continue
            # integer counters: phi -> phi+1 on every edge
            for c in list(changed):
                v0 = st0.cells[c]
                if is_int(v0) and c not in index_cells and c not in collapse:
                    ph = T('phi', lid, c)
                    if edges and all(e.upd.get(c) is lin_add(ph, Int(1)) for e in edges):
                        index_cells[c] = v0
                        restart = True
                    else:
                        collapse.add(c)
            # what is left of a list that is taken apart from one end
            for c in list(changed):
                v0 = st0.cells[c]
                ph = T('phi', lid, c)
                n = length(ph)
                if c in index_cells or c in collapse or c in cursors or v0.op in ('it', 'ad', 'tup', 'adt') or not edges:
                    continue
                if all(e.upd.get(c) is T('slice', ph, Int(1), n) for e in edges):
                    cursors[c] = lambda k, v=v0: self.models.sub(v, k, length(v))
                elif all(e.upd.get(c) is T('slice', ph, Int(0), lin_add(n, Int(1), -1)) for e in edges):
                    cursors[c] = lambda k, v=v0: self.models.sub(v, Int(0), lin_add(length(v), k, -1))
                else:
                    continue
                restart = True
            if restart:
                continue
            break
        else:
            raise Undecided('loop in %s does not stabilise' % where)
        # ---------------------------------------------------------------- exits
        succ = {}
        pred = {}
        for e in edges:
            succ.setdefault(e.src, set()).add(e.dst)
            pred.setdefault(e.dst, set()).add(e.src)

        def closure(start, g):
            r = {start}
            w = [start]
            while w:
                x = w.pop()
                for y in g.get(x, ()):
                    if y not in r:
                        r.add(y)
                        w.append(y)
            return r

        again = []
        if not self.ranked(edges, closure, succ):
            # nothing bounds the number of iterations: look for a state that the loop repeats
            self.unranked.setdefault(where, set()).update(self.stack[:1])
            for o in conts[:4]:
                again += self.repeats(o.st, runner, relevant, where)
        src = None
        for c in sorted(changed, key=repr):
            if st0.cells[c].op in ('it', 'ad'):
                ss = self.iter_src(st0.cells[c])
                if ss:
                    s, p = ss[0]
                    src = s if (is_int(p) and p.a[1] == 0) else subseq(s, p, length(s))
                    break
        # the first iteration starts from the known entry state: its panics are exact
        res = [o for o in probe if o.kind == 'panic'] + again
        for o in conts:
            if all(not relevant(c) or o.st.cells.get(c) is v for c, v in st0.cells.items()):
                res.append(Out('panic', o.st, (FOREVER, 'loop', where)))
        for nk, o in exits:
            onpath = closure(nk, pred)
            es = [e for e in edges if e.src in onpath and e.dst in onpath]
            full = lid in o.st.exh
            s = src
            if not full:
                # a zip whose second part ended first
                z = [x[2] for x in o.st.exh if isinstance(x, tuple) and x[0] == 'z' and x[1] == lid]
                if len(z) == 1:
                    full = True
                    s = z[0]
            for c in sorted(cursors, key=repr):
                v = st0.cells[c]
                if s is None or not full:
                    s = v if cursors[c](Int(1)) is self.models.sub(v, Int(1), length(v)) else T('rev', v)
                full = full or o.st.decide_le(lin_add(length(v), T('k', lid), -1)) is True
            if not full and index_cells:
                k = T('k', lid)
                for key, (lo, hi) in o.st.bnd.items():
                    for (x, y, l, h) in (State._diffs(key, lo, hi) if len(key) == 2 else ()):
                        if x is k and l is not None and l >= 0 and y.op == 'app' and y.a[0] in ('len', 'nseg'):
                            full = True
                            s = y.a[1] if y.a[0] == 'len' else App('split', y.a[1], y.a[2])
                if s is None:
                    for key, (lo, hi) in o.st.bnd.items():
                        for (x, y, l, h) in (State._diffs(key, lo, hi) if len(key) == 2 else ()):
                            if x is k and h is not None and h < 0 and y.op == 'app' and y.a[0] in ('len',):
                                s = y.a[1]
            ends = sorted({length(x[2]) for x in o.st.exh if isinstance(x, tuple) and x[0] == 'e' and x[1] == lid}, key=repr)
            if ends:
                # the lists gone through side by side: those that ended are as long as there were rounds
                k = T('k', lid)
                try:
                    for x in ends[1:]:
                        o.st.assume(IntCmp('Eq', x, ends[0]), True)
                    for key, (lo, hi) in list(o.st.bnd.items()):
                        for (x, y, l, h) in (State._diffs(key, lo, hi) if len(key) == 2 else ()):
                            if x is k and y.op == 'app' and y.a[0] == 'len' and y is not ends[0]:
                                d = lin_add(ends[0], y, -1)
                                if h is not None:
                                    o.st.assume_le(d, h)
                                if l is not None:
                                    o.st.assume_le(lin_scale(d, -1), -l)
                except Dead:
                    continue
            must = None
            if nk != k0:
                must = [e for e in edges if e.dst == nk and e.src != nk]
            start = {c: st0.cells[c] for c in changed}
            for c in changed:
                start.update(self.parts(c, st0.cells[c]))
            rec = LoopRec(lid, s, es, full, must, start, where)
            o.st.foralls = o.st.foralls + (rec,)
            if full and es:
                prs = None
                for e in es:
                    q = self.equal_elements(e, T('k', lid))
                    prs = q if prs is None else prs & q
                try:
                    for x, y in prs:
                        if not self.covers(s, x, y):
                            continue
                        o.st.assume_le(App('xordiff', x, y))
                        o.st.assume_le(lin_scale(App('xordiff', x, y), -1))
                except Dead:
                    o.st.foralls = o.st.foralls[:-1]
                    continue
            if full and not es and s is not None and all(self.plain_iter(st0.cells[c]) for c in changed if st0.cells[c].op in ('it', 'ad')):
                # gone through without a single round
                try:
                    o.st.assume_le(length(s))
                except Dead:
                    continue
            m = {}
            if s is not None:
                for c in changed:
                    if st0.cells[c].op in ('it', 'ad') or c in index_cells or c in cursors:
                        continue
                    head = nodes[nk].get(c)
                    for q, v in [(c, head)] + (list(self.parts(c, head).items()) if head is not None else []):
                        ph = T('phi', lid, q)
                        if v is not ph or q not in start:
                            continue
                        cf = self.closed_form(start[q], ph, q, es, s, T('k', lid), full, {n: nodes[n].get(c) for n in onpath if n in nodes} if q == c else None)
                        if cf is not None:
                            m[ph] = cf
            if full and (index_cells or cursors) and s is not None:
                m[T('k', lid)] = length(s)
            try:
                more = self.digit_loop(o, es, changed, st0, lid, m) if index_cells and es else None
            except Dead:
                continue
            if more is not None:
                res += more
                continue
            if m:
                for c in list(o.st.cells):
                    if relevant(c) or True:
                        v = o.st.cells[c]
                        v2 = subst(v, m)
                        if v2 is not v:
                            o.st.cells[c] = v2
                if isinstance(o.val, T):
                    o.val = subst(o.val, m)
            res.append(o)
        return res

    def digit_loop(self, o, es, changed, st0, lid, m):
        """a loop that divides a number by ten: the rounds made are its digits, or one less; panics that need more rounds do
        not happen (Dead)"""
        k = T('k', lid)
        for c in changed:
            ph, x = T('phi', lid, c), st0.cells[c]
            if not self.unsigned(c) or any(e.upd.get(c) is not App('divc', ph, Int(10)) for e in es):
                continue
            st = o.st
            self.note_range(st, x, self.ir.types[self.frame_body[c[0]]['locals'][c[1]]])
            n = Int(len(str(x.a[1]))) if is_int(x) else App('digits', x)
            lo, _ = st.lin_range(k)
            glo = min(max([v for kind, t, v in e.facts if kind == 'ge' and t is ph] + [0]) for e in es)
            plo, phi = st.lin_range(ph)
            if plo is not None and plo >= 1:
                # still dividing: n >= k + digits of what is left
                if lo is not None:
                    st.assume(IntCmp('Ge', n, Int(lo + len(str(plo)))), True)
                return None
            if phi is None or not (phi <= 9 and glo >= 10 or phi <= 0 and glo >= 1):
                continue
            out = []
            for s2, z in ([(st, False)] if glo >= 10 else self.fork_bool(st, IntCmp('Le', x, Int(0)))):
                v = lin_add(n, Int(1), -1) if glo >= 10 else Int(0) if z else n
                m2 = dict(m)
                m2[k] = v
                s2 = s2.copy()
                try:
                    for b in ('Ge', 'Le'):
                        lim = s2.lin_range(k)[b == 'Le']
                        if lim is not None:
                            s2.assume(IntCmp(b, v, Int(lim)), True)
                except Dead:
                    continue
                for q in list(s2.cells):
                    s2.cells[q] = subst(s2.cells[q], m2)
                out.append(Out(o.kind, s2, subst(o.val, m2) if isinstance(o.val, T) else o.val))
            return out
        return None

    def measures(self, st, before, after, changed, lid):
        """what makes sure that iterations like this one come to an end: iterators that advance, lists and texts that get
        shorter, numbers that go down to or up to a bound"""
        r = set()
        own = lambda t: contains(t, lambda x: x.op in ('k', 'kn') and x.a[0] == lid or x.op == 'phi' and x.a[0] == lid)
        for c in changed:
            ov, nv = before[c], after.get(c, T('uninit'))
            if ov.op in ('it', 'ad'):
                if contains(nv, lambda t: t.op == 'kn'):
                    r.add(('it', c))
                continue
            po, pn = self.parts(c, ov), self.parts(c, nv)
            for q, o, n in [(c, ov, nv)] + [(q, po[q], pn[q]) for q in po if q in pn]:
                if o is n or not own(o):
                    continue
                if o.op in ('phi', 'slice') and st.decide_le(lin_add(length(n), lin_scale(length(o), -1)), -1):
                    r.add(('len', q))
                    continue
                if n.op == 'adt' or o.op == 'adt':
                    continue
                lo, _ = st.lin_range(o)
                if lo is None and self.unsigned(q):
                    lo = 0
                d = lin_add(n, lin_scale(o, -1))
                if lo is not None and (st.decide_le(d, -1) or n.op == 'app' and n.a[0] == 'opDiv' and n.a[1] is o and is_int(n.a[2]) and n.a[2].a[1] > 1 and lo >= 1):
                    r.add(('down', q))
                if st.decide_le(lin_scale(d, -1), -1):
                    k, f = lin_parts(o)
                    at = next(iter(f), None) if isinstance(f, dict) else None
                    bounded = st.lin_range(o)[1] is not None
                    for key, (l, h) in st.bnd.items():
                        if len(key) == 2:
                            bounded = bounded or any(x is at and hh is not None and not own(y) for x, y, ll, hh in State._diffs(key, l, h))
                    if bounded:
                        r.add(('up', q))
        return r

    def unsigned(self, cell):
        while isinstance(cell, tuple) and isinstance(cell[0], tuple):
            cell = cell[0]
        b = self.frame_body.get(cell[0])
        return b is not None and isinstance(cell[1], int) and self.ir.types[b['locals'][cell[1]]]['s'] in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')

    @staticmethod
    def ranked(edges, closure, succ):
        """every cycle of the loop has a measure"""
        for e in edges:
            if e.src not in closure(e.dst, succ):
                continue
            scc = [x for x in edges if x.src in closure(e.src, succ) and e.src in closure(x.dst, succ)]
            left = list(scc)
            # lexicographic: a measure that no edge spoils
            if set.intersection(*[x.rank for x in left]):
                continue
            return False
        return True

    def repeats(self, st, runner, relevant, where):
        """exits of a further iteration from a known state that changes nothing"""
        try:
            outs = runner(st.copy())
        except Undecided:
            return []
        return [Out('panic', o.st, (FOREVER, 'loop', where)) for o in outs
                if o.kind == 'cont' and all(not relevant(c) or o.st.cells.get(c) is v for c, v in st.cells.items())]

    @staticmethod
    def equal_elements(e, key):
        """pairs of texts whose elements at key are equal on a loop edge"""
        r = set()
        lo, hi = set(), set()
        for k, t, v in e.facts:
            if k == 'atom' and v is True and t.op == 'eq':
                p, q = t.a
            elif k in ('ge', 'le') and v == 0 and t.op == 'lin' and t.a[0] == 0 and sorted(n for _, n in t.a[1]) == [-1, 1]:
                (lo if k == 'ge' else hi).add(t)
                if t not in lo or t not in hi:
                    continue
                p, q = [x for x, _ in t.a[1]]
            else:
                continue
            if p.op == 'at' and q.op == 'at' and p.a[1] is key and q.a[1] is key:
                r.add((textof(p.a[0]), textof(q.a[0])))
        return r

    @staticmethod
    def xorstep(v, ph, key):
        """the two texts whose elements at key are compared into the accumulator ph by v = ph | (a ^ b) or the like"""
        if v.op == 'app' and v.a[0] == 'opBitOr' and len(v.a) == 3 and ph in v.a[1:]:
            d = v.a[2] if v.a[1] is ph else v.a[1]
        elif v.op == 'lin' and v.a[0] == 0 and len(v.a[1]) == 2 and dict(v.a[1]).get(ph) == 1:
            d, n = [x for x in v.a[1] if x[0] is not ph][0]
            if n != 1 or d.op != 'app' or d.a[0] not in ('b2i', 'opBitXor'):
                return None
        elif v.op in ('or', 'and') and ph in v.a:
            # the same with a boolean: ph | (a != b), ph & (a == b)
            d = v.a[1] if v.a[0] is ph else v.a[0]
            if v.op == 'and':
                d = Not(d)
            if d.op != 'not':
                return None
        else:
            return None
        if d.op == 'app' and d.a[0] == 'opBitXor' and len(d.a) == 3:
            p, q = d.a[1:]
        elif d.op == 'not' or d.op == 'app' and d.a[0] == 'b2i' and d.a[1].op == 'not':
            b = d.a[0] if d.op == 'not' else d.a[1].a[0]
            if b.op == 'eq':
                p, q = b.a
            elif b.op == 'eq0' and b.a[0].op == 'lin' and b.a[0].a[0] == 0 and sorted(n for _, n in b.a[0].a[1]) == [-1, 1]:
                p, q = [t for t, _ in b.a[0].a[1]]
            else:
                return None
        else:
            return None
        if p.op == 'at' and q.op == 'at' and p.a[1] is key and q.a[1] is key:
            return textof(p.a[0]), textof(q.a[0])
        return None

    def plain_iter(self, v):
        """an iterator from the start of a sequence that gives as many elements as there are in it"""
        if v.op == 'it':
            return v.a[1] is Int(0)
        return v.op == 'ad' and v.a[0] in ('map', 'zip', 'enumerate', 'copied', 'cloned', 'inspect') and all(self.plain_iter(x) for x in v.a[1:] if isinstance(x, T) and x.op in ('it', 'ad'))

    @staticmethod
    def covers(src, x, y):
        """a completed loop over src has seen every position x and y have in common"""
        if src is None:
            return False
        if src.op == 'app' and src.a[0] == 'range' and src.a[1] is Int(0):
            n = src.a[2]
            return any(n in (length(t), App('min', length(x), length(y)), App('min', length(y), length(x))) for t in (x, y))
        return textof(src) in (x, y)

    @staticmethod
    def vacuous(f, ph, key, src, kind):
        """facts that say nothing about which elements an edge is taken for"""
        k, t, v = f
        if k == 'atom' and t.op == 'in' and t.a[0] is ph and kind == 'ins':
            return True
        if k == 'ge' and t is key and v <= 0:
            return True
        return k == 'le' and v >= -1 and t is lin_add(key, length(src), -1)

    @staticmethod
    def merge_alts(alts):
        """join cases with the same outcome that differ in one complementary fact"""
        def compl(f, g):
            if f[1] is not g[1]:
                return False
            if f[0] == 'atom' == g[0]:
                return f[2] != g[2]
            if f[0] == 'var' == g[0]:
                return {f[2], g[2]} in ({'Some', 'None'}, {'Ok', 'Err'})
            if {f[0], g[0]} == {'ge', 'le'}:
                return abs(f[2] - g[2]) == 1 and (f[2] > g[2]) == (f[0] == 'ge')
            return False
        alts = list(dict.fromkeys(alts))
        ch = True
        while ch:
            ch = False
            for i in range(len(alts)):
                for j in range(len(alts)):
                    if i == j or alts[i][1] is not alts[j][1]:
                        continue
                    (p, b), (q, _) = alts[i], alts[j]
                    if p <= q:
                        r = p
                    elif len(p - q) == 1 and len(q - p) == 1 and compl(*(p - q), *(q - p)):
                        r = p & q
                    else:
                        continue
                    alts = [a for n, a in enumerate(alts) if n not in (i, j)] + [(r, b)]
                    ch = True
                    break
                if ch:
                    break
        return alts

    def closed_form(self, init, ph, c, edges, src, key, full, heads=None):
        """value of an accumulator after the loop (full) or after the iterations before key (prefix)"""
        ups = []
        n = 0
        for e in edges:
            v = e.upd.get(c)
            if v is None:
                ups.append((e, None))
                continue
            n += 1
            if heads and v.op == 'not' and heads.get(e.src) is FALSE:
                # taken with the accumulator false: what it becomes is the same as with it joined
                v = T('or', ph, v)
            elif heads and v.op in ('eq', 'eq0') and heads.get(e.src) is TRUE:
                v = T('and', ph, v)
            if v.op in ('push', 'ins') and v.a[0] is ph:
                ups.append((e, (v.op, v.a[1])))
            elif v.op == 'app' and v.a[0] == 'opBitAnd' and ph in v.a[1:] and init is Int(0):
                ups.append((e, ('zero',)))
            elif v.op in ('app', 'lin', 'or', 'and') and self.xorstep(v, ph, key) is not None:
                ups.append((e, ('xor' if v.op in ('app', 'lin') else 'xorb' if v.op == 'or' else 'xand', self.xorstep(v, ph, key))))
            elif v.op == 'cat' and v.a[0] is ph:
                ups.append((e, ('cat', T('cat', *v.a[1:]) if len(v.a) > 2 else v.a[1])))
            else:
                return None
        if n == 0:
            return init
        kinds = {u[0] for _, u in ups if u}
        if len(kinds) != 1:
            return None
        kind = kinds.pop()
        if kind == 'zero':
            return init
        if kind in ('xor', 'xorb', 'xand'):
            # differences of two texts, accumulated
            pairs = {u[1] if u else None for _, u in ups}
            if not full or len(pairs) != 1 or None in pairs:
                return None
            x, y = pairs.pop()
            if not self.covers(src, x, y):
                # only a prefix of the texts has been compared
                if src.op == 'app' and src.a[0] == 'range' and src.a[1] is Int(0):
                    n = src.a[2]
                elif src.op == 'slice' and src.a[1] is Int(0) and textof(src.a[0]) in (x, y):
                    n = src.a[2]
                else:
                    return None
                x, y = T('slice', x, Int(0), n), T('slice', y, Int(0), n)
            d = App('xordiff', x, y)
            if kind != 'xor':
                b = T('eq0', d)
                if kind == 'xorb':
                    return Not(b) if init is FALSE else T('or', init, Not(b))
                return b if init is TRUE else Both(init, b)
            if init is Int(0):
                return d
            return App('opBitOr', init, d) if all(e.upd.get(c) is None or e.upd[c].op == 'app' for e in edges) else None
        if not full:
            src = T('prefix', src, key)
        elem = at(T('src', src), key)
        base = at(src, key) if src.op not in ('prefix',) else at(src.a[0], key)
        if kind == 'ins':
            # "already present" edges attempted an insertion as well
            ups2 = []
            for e, u in ups:
                if u is None:
                    att = [t.a[1] for k, t, v in e.facts if k == 'atom' and v is True and t.op == 'in' and t.a[0] is ph]
                    u = ('ins', att[0]) if len(att) == 1 else None
                ups2.append((e, u))
            ups = ups2
        bodies = {u[1] for _, u in ups if u}
        if all(u for _, u in ups) and len(bodies) == 1:
            b = bodies.pop()
            if kind == 'ins' or kind == 'push':
                seq = mapseq(src, base, b) if not contains(b, lambda t: t is ph) else None
            else:
                seq = mapseq(src, base, b)
        else:
            alts = []
            for e, u in ups:
                if u:
                    fs = []
                    for f in e.facts:
                        if not contains(f[1], lambda q: q.op == 'k' or q is ph):
                            fs.append(f)
                        elif not contains(subst(f[1], {base: EMPTY}), lambda q: q.op == 'k' or q is ph):
                            fs.append(f)
                        elif not self.vacuous(f, ph, key, src if full else src.a[0], kind) and not all(u for _, u in ups):
                            # which elements contribute depends on more than the element
                            return None
                    alts.append((frozenset(fs), u[1]))
            alts = self.merge_alts(alts)
            v = fresh_bv(*[x for fs, b in alts for x in [b] + [t for _, t, _ in fs]])
            alts = tuple(sorted(((tuple(sorted(subst_facts(fs, {base: v}), key=repr)), subst(b, {base: v})) for fs, b in alts), key=repr))
            # a further mark where elements meeting none of the conditions are left out
            seq = T('cseq', src, v, alts, *(() if all(u for _, u in ups) else ('filter',)))
        if seq is None or full and contains(seq, lambda t: t is key):
            return None
        if kind == 'ins':
            if init.op == 'app' and init.a[0] == 'emptyset':
                return App('setof', seq)
            return App('setunion', init, App('setof', seq))
        if kind == 'cat':
            return cat([init, joined_text(seq, Str(''))])
        if init.op == 'arr' and not init.a:
            return seq
        return App('concat', init, seq)


def liveness(ir, bid):
    body = ir.bodies[bid]
    blocks = body['blocks']
    use = {}
    dfn = {}

    def ploc(p, u, d, write):
        if write and not p[1]:
            if p[0] not in u:
                d.add(p[0])
        else:
            if p[0] not in d:
                u.add(p[0])
        for e in p[1]:
            if e[0] == 'i' and e[1] not in d:
                u.add(e[1])

    def opnd(o, u, d):
        if o[0] in ('cp', 'mv'):
            ploc(o[1], u, d, False)

    refs = set()

    def rv(r, u, d):
        k = r[0]
        if k in ('use', 'repeat'):
            opnd(r[1], u, d)
        elif k == 'ref':
            ploc(r[2], u, d, False)
            if r[1]:
                refs.add(r[2][0])
        elif k == 'cast':
            opnd(r[2], u, d)
        elif k == 'bin':
            opnd(r[2], u, d)
            opnd(r[3], u, d)
        elif k == 'un':
            opnd(r[2], u, d)
        elif k == 'discr':
            ploc(r[1], u, d, False)
        elif k in ('arr', 'tup', 'rawptr', 'aggunk'):
            for o in r[1]:
                opnd(o, u, d)
        elif k == 'adt':
            for o in r[5]:
                opnd(o, u, d)
        elif k == 'closure':
            for o in r[2]:
                opnd(o, u, d)

    for i, b in enumerate(blocks):
        if b is None:
            continue
        u, d = set(), set()
        for s in b['s']:
            if s[0] == '=':
                rv(s[2], u, d)
                ploc(s[1], u, d, True)
        t = b['t']
        if t[0] == 'switch' or t[0] == 'assert':
            opnd(t[1], u, d)
        elif t[0] == 'call':
            if t[1]['kind'] == 'indirect':
                opnd(t[1]['op'], u, d)
            for o in t[2]:
                opnd(o, u, d)
            ploc(t[3], u, d, True)
        elif t[0] == 'ret':
            u.add(0) if 0 not in d else None
        use[i], dfn[i] = u, d
    live = {i: set(use[i]) for i in use}
    ch = True
    while ch:
        ch = False
        for i in use:
            o = set()
            for s in ir.succ(blocks[i]['t']):
                if s in live:
                    o |= live[s]
            n = use[i] | (o - dfn[i])
            if n != live[i]:
                live[i] = n
                ch = True
    # locals that are mutably borrowed may be read through the reference
    for i in live:
        live[i] = live[i] | refs
    return live
