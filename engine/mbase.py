"""Transfer functions for library calls (std, chrono, serde_json, base64, ssi)."""
import re
from terms import *
from state import *
from interp import Out, Call

STRS = ('str', 'alloc::string::String', 'alloc::boxed::Box')
NS = 10**9
DT_MAX = 8210266876799 * NS + NS - 1      # chrono's last instant
DT_MIN = -8334601228800 * NS
NOW_MAX = 253402300799 * NS               # the clock reads a year of at most four digits
NOW_MIN = 0
DUR_MAX = (2**63 - 1) * 10**6             # chrono durations hold milliseconds in an i64

SETS = ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet', 'hashbrown::set::HashSet')
MAPS = ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap', 'hashbrown::map::HashMap')
SEQS = ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque')
DATETIME = 'chrono::datetime::DateTime'
# dates and times of day without a zone, as whole days and as nanoseconds
NAIVE = ('chrono::naive::date::NaiveDate', 'chrono::naive::time::NaiveTime', 'chrono::naive::datetime::NaiveDateTime')


def ret(st, v):
    return [Out('ret', st, v)]


def model(*keys):
    def deco(fn):
        fn.keys = keys
        return fn
    return deco


def each(pats, *names):
    return tuple(p + '::' + n for p in pats for n in names)


def norm(p):
    """strip generic arguments of a path"""
    out = []
    d = 0
    for i, ch in enumerate(p):
        if ch == '<' and i > 0:
            d += 1
        elif ch == '>' and d > 0 and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out).replace('::::', '::').rstrip(':')


EMPTY = T('arr')
EMPTYSET = App('emptyset')


class Base:
    def __init__(self, ir):
        self.ir = ir
        self.tab = {}
        self._norm = {}
        for name in dir(self):
            fn = getattr(self, name)
            ks = getattr(fn, 'keys', ())
            if isinstance(ks, tuple):
                for k in ks:
                    self.tab[k] = fn

    # ------------------------------------------------------------- dispatch
    def lookup(self, p):
        r = self._norm.get(p)
        if r is None:
            r = self.tab.get(p) or self.tab.get(norm(p)) or False
            self._norm[p] = r
        return r

    def apply(self, m, st, c):
        f = c.f
        if self.local_impl(c) and not f['path'].startswith('core::ops::function::'):
            return None
        fn = self.lookup(f['path'])
        if not fn and 'rpath' in f:
            fn = self.lookup(f['rpath'])
        if fn:
            return fn(m, st, c)
        return None

    # functions whose meaning is known: their results are what they are named
    KNOWN = (
        'serde_json::', 'base64::', 'urlencoding::', 'ssi_dids::', 'ssi_jwk::', 'chrono::', 'time::', 'core::fmt::', 'alloc::fmt::',
        'serde::', 'thiserror::', 'core::str::', 'alloc::str::', 'alloc::string::', 'core::default::', 'std::collections::hash::map::HashMap::get',
        'core::hint::', 'core::error::',
    )
    PANICKY = (
        'core::panicking::', 'std::panicking::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
        'std::process::exit', 'std::process::abort', 'core::slice::index::slice_', 'core::str::slice_error_fail', 'alloc::alloc::handle_alloc_error',
        'std::panic::panic_any', 'core::intrinsics::abort', 'std::intrinsics::abort', 'std::rt::begin_panic',
    )

    def opaque(self, m, st, c):
        f = c.f
        name = f.get('path') or '?'
        rp = f.get('rpath') or name
        if any(rp.startswith(x) or name.startswith(x) for x in self.PANICKY):
            return [Out('panic', st, ('panic', norm(name), c.span))]
        if c.dty is not None and self.ir.types[c.dty]['s'] == '!':
            return [Out('panic', st, ('diverges', norm(name), c.span))]
        pre = self.precondition(m, st, c, norm(name))
        if pre is not None:
            out = []
            for s, b in m.fork_bool(st, pre):
                out += self.opaque2(m, s, c) if b else [Out('panic', s, ('%s out of its domain' % norm(name).split('::')[-1], norm(name), c.span))]
            return out
        return self.opaque2(m, st, c)

    def precondition(self, m, st, c, n):
        """condition under which a library function that has no transfer function does not panic"""
        a = lambda i: self.arg(m, st, c, i)
        if n in ('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove'):
            return IntCmp('Lt', a(1), length(a(0)))
        if n in ('alloc::vec::Vec::insert', 'alloc::vec::Vec::split_off'):
            return IntCmp('Le', a(1), length(a(0)))
        if n == 'alloc::string::String::remove':
            return T('and', IntCmp('Lt', a(1), self.textlen(a(0))), self.char_edge(a(0), a(1)))
        if n in ('alloc::string::String::insert', 'alloc::string::String::insert_str', 'alloc::string::String::split_off'):
            return T('and', IntCmp('Le', a(1), self.textlen(a(0))), self.char_edge(a(0), a(1)))
        if n == 'alloc::string::String::truncate':
            return T('or', IntCmp('Lt', self.textlen(a(0)), a(1)), self.char_edge(a(0), a(1)))
        if n in ('core::slice::copy_from_slice', 'core::slice::clone_from_slice', 'core::slice::swap_with_slice'):
            return T('and', IntCmp('Le', length(a(0)), length(a(1))), IntCmp('Le', length(a(1)), length(a(0))))
        if n in ('core::slice::chunks', 'core::slice::windows', 'core::slice::chunks_exact', 'core::slice::rchunks', 'core::slice::chunks_mut',
                 'core::iter::traits::iterator::Iterator::step_by'):
            return IntCmp('Lt', Int(0), a(1))
        if n == 'core::slice::swap':
            return T('and', IntCmp('Lt', a(1), length(a(0))), IntCmp('Lt', a(2), length(a(0))))
        return None

    def char_edge(self, s, i):
        """whether byte position i of the text s lies between two characters"""
        if is_int(i) and i.a[1] == 0 or i in (length(s), self.textlen(s)):
            return TRUE
        if is_str(s) and is_int(i):
            b = s.a[1].encode()
            return Bool(i.a[1] >= len(b) or b[i.a[1]] & 0xc0 != 0x80)
        return App('char_boundary', s, i)

    def opaque2(self, m, st, c):
        f = c.f
        name = f.get('path') or '?'
        rp = f.get('rpath') or name
        st = st.copy()
        args = []
        muts = []
        clo = False
        for a in c.args:
            if a.op == 'mref':
                muts.append(a)
                a = m.deref(st, a)
            if contains(a, lambda t: t.op in ('clo', 'mref')):
                clo = True
            args.append(a)
        dt = self.ir.types[c.dty]['s'] if c.dty is not None else '?'
        t = App('%s|%s' % (rp, dt), *args)
        known = any(rp.startswith(x) or rp.startswith('<' + x) or name.startswith(x) for x in self.KNOWN)
        if f['kind'] == 'unresolved' or f['kind'] == 'virtual':
            known = True
        if (not known or clo) and not name.startswith('serde::ser'):
            st.unk = st.unk | {norm(rp)}
        for i, a in enumerate(muts):
            m.assign_mref(st, a, App('post%d:%s' % (i, rp), *args))
        st.log = st.log + ((name, self.selfname(f), tuple(args), t),)
        return ret(st, UNIT if dt == '()' else t)

    def selfname(self, f):
        if 'self' in f:
            return self.ir.types[f['self']]['s']
        return f.get('implself', '')

    def only_constructed(self, st, t):
        """Document::select_object yields only the kinds of Resource that its body constructs"""
        adt = [p for p in self.ir.adts if p.endswith('ssi_dids::Resource') or p == 'ssi_dids::Resource']
        ex = [e for e in self.ir.extra if e['path'].endswith('::select_object')]
        if len(adt) != 1 or len(ex) != 1:
            return
        if not hasattr(self, '_made'):
            self._made = self.ir.constructed(ex[0]['id'], adt[0])
        if self._made is None:
            return
        uni = tuple(v['n'] for v in self.ir.adts[adt[0]]['v'])
        for v in uni:
            if v not in self._made:
                st.exclude(fld(t, 'Ok', '0'), v, uni)

    # ------------------------------------------------------------- helpers
    def peelty(self, i):
        return self.ir.types[self.ir.peel(i)]

    def selfty(self, c):
        """peeled self/first type argument of a trait method"""
        if 'self' in c.f:
            return self.peelty(c.f['self'])
        if c.aty and c.aty[0] is not None:
            return self.peelty(c.aty[0])
        if c.f.get('targs'):
            return self.peelty(c.f['targs'][0])
        return None

    def argty(self, c, i):
        if c.aty and i < len(c.aty) and c.aty[i] is not None:
            return self.peelty(c.aty[i])
        return None

    def local_impl(self, c):
        """the call resolves to a hand-written implementation of the analysed crate"""
        return c.f.get('rcrate') == self.ir.crate and 'body' in c.f and not c.f.get('rderived')

    def strlike(self, t):
        if t is None:
            return False
        if t['k'] == 'str' or t.get('p') == 'alloc::string::String':
            return True
        if t.get('p') == 'alloc::borrow::Cow':
            return True
        return t['k'] in ('slice', 'array') or t.get('p') == 'alloc::vec::Vec'

    def textlike(self, t):
        return t is not None and (t['k'] == 'str' or t.get('p') in ('alloc::string::String', 'alloc::borrow::Cow'))

    def isint(self, t):
        return t is not None and t['s'] in INTS

    def arg(self, m, st, c, i):
        return m.deref(st, c.args[i])

    def fork(self, m, st, cond):
        return m.fork_bool(st, cond)

    def option(self, m, st, cond, v):
        """Some(v) when cond else None"""
        return [Out('ret', s, Some(v) if b else NONE) for s, b in m.fork_bool(st, cond)]

    def opaque_result(self, m, st, term, okv=None, log=None):
        """term is a Result; okv replaces its success value"""
        if log:
            st = st.copy()
            st.log = st.log + (log,)
        if okv is None:
            return ret(st, term)
        out = []
        for s, v in m.fork_variant(st, term, RESULT):
            out.append(Out('ret', s, Ok(okv) if v == 'Ok' else Err(fld(term, 'Err', '0'))))
        return out

    def callbool(self, m, st, f, args, depth):
        """[(state, bool)] plus non-return outcomes"""
        good, bad = [], []
        for o in m.call_value(st, f, args, depth):
            if o.kind == 'ret':
                good += m.fork_bool(o.st, m.deref(o.st, o.val))
            else:
                bad.append(o)
        return good, bad


INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def dur_ok(t):
    return T('and', Le0(lin_add(t, Int(DUR_MAX), -1)), Le0(lin_add(Int(-DUR_MAX), t, -1)))
