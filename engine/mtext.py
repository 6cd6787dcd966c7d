"""Transfer functions: identity conversions, equality, ordering, numbers, text, formatting, codecs."""
from mbase import *

IDENT = (
    'core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::ops::deref::Deref::deref', 'core::convert::AsRef::as_ref',
    'core::borrow::Borrow::borrow', 'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'core::str::as_bytes',
    'alloc::slice::to_vec', 'alloc::string::String::into_bytes', 'alloc::string::String::into_boxed_str', 'alloc::str::into_string',
    'alloc::boxed::Box::new', 'core::hint::must_use', 'core::hint::black_box', 'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::into_boxed_slice',
    'alloc::slice::into_vec', 'core::convert::identity', 'alloc::borrow::Cow::into_owned', 'alloc::borrow::Cow::to_mut', 'core::slice::as_slice', 'core::array::as_slice',
    'alloc::str::to_owned', 'core::option::Option::as_deref', 'core::option::Option::cloned', 'core::option::Option::copied',
    'core::option::Option::as_ref', 'core::result::Result::as_ref', 'core::result::Result::cloned', 'core::result::Result::copied', 'core::option::Option::as_deref_ref',
    'core::ptr::const_ptr::cast_mut', 'core::ptr::mut_ptr::cast_const',
    'core::str::to_owned', 'alloc::rc::Rc::new', 'alloc::sync::Arc::new', 'core::str::as_ptr_identity', 'core::mem::ManuallyDrop::new',
    'alloc::vec::Vec::leak', 'core::ops::deref::DerefMut::deref_mut',
    'alloc::string::String::as_mut_str', 'alloc::vec::Vec::as_mut_slice', 'core::convert::AsMut::as_mut', 'core::borrow::BorrowMut::borrow_mut',
    'thiserror::display::DisplayAsDisplay::as_display', 'thiserror::aserror::AsDynError::as_dyn_error', 'serde_json::value::Value::from_identity',
    'core::iter::traits::iterator::Iterator::by_ref', 'core::intrinsics::transmute_unchecked_identity', 'core::alloc::identity',
    'core::mem::MaybeUninit::assume_init', 'core::mem::maybe_uninit::MaybeUninit::assume_init', 'core::str::as_str',
    'alloc::vec::Vec::shrink_to_fit', 'alloc::boxed::Box::into_inner', 'alloc::boxed::Box::into_pin', 'core::ops::index::IndexMut::identity',
    'core::slice::as_ref', 'core::any::type_name_identity', 'core::cell::once::identity', 'alloc::boxed::box_new',
)

CLONES = ('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::slice::to_vec', 'core::option::Option::cloned', 'core::result::Result::cloned',
          'alloc::str::to_owned', 'alloc::borrow::Cow::into_owned')

ASREF_OPT = ('core::option::Option::as_ref', 'core::option::Option::as_deref', 'core::option::Option::cloned', 'core::option::Option::copied')


class Text:
    @model('core::ptr::const_ptr::cast', 'core::ptr::mut_ptr::cast')
    def ptr_cast_(self, m, st, c):
        ft, tt = self.argty(c, 0), self.peelty(c.dty)
        if ft is None:
            return None
        return ret(st, m.ptr_cast(st, c.args[0], ft, tt))

    # ------------------------------------------------------------- identity
    @model(*IDENT)
    def identity(self, m, st, c):
        a = c.args[0]
        if self.local_impl(c):
            return None
        if c.f['path'] in CLONES and self.odd_clone(c):
            return None
        if a.op == 'mref':
            p = c.f['path']
            if p.endswith(('deref_mut', 'as_mut_str', 'as_mut_slice', 'as_mut', 'borrow_mut', 'by_ref', 'to_mut')):
                return ret(st, a)
            if p.endswith('shrink_to_fit'):
                return ret(st, UNIT)
            a = m.deref(st, a)
        # a value held through a nested mutable reference
        if a.op == 'adt' and contains(a, lambda t: t.op == 'mref') and c.f['path'] in IDENT[:2]:
            return None
        return ret(st, a)

    def odd_clone(self, c):
        """does the value hold a type of the crate whose copies are made by hand-written code?"""
        odd = getattr(self, '_odd', None)
        if odd is None:
            odd = self._odd = {self.ir.types[r['impl_self']].get('p') for r in self.ir.roots if r['name'] == 'clone' and not r['derived'] and 'impl_self' in r and
                               r.get('impl_trait', '').split('<')[0].endswith('Clone')}
        if not odd:
            return False
        seen, work = set(), [x for x in ([c.aty[0]] if c.aty else []) if x is not None]
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            t = self.ir.types[i]
            if t.get('p') in odd:
                return True
            work += [x for x in t.get('a') or [] if isinstance(x, int)]
            for v in (self.ir.adts.get(t.get('p')) or {}).get('v', []):
                work += [f['t'] for f in v['f']]
        return False

    @model('core::option::Option::as_mut', 'core::option::Option::as_deref_mut')
    def opt_as_mut(self, m, st, c):
        a = c.args[0]
        if a.op != 'mref':
            return None
        v = m.deref(st, a)
        out = []
        for s, w in m.fork_variant(st, v, OPTION):
            if w == 'None':
                out.append(Out('ret', s, NONE))
            else:
                r = m.resolve_mref(s, a)
                out.append(Out('ret', s, Some(T('mref', r.a[0], tuple(r.a[1]) + (('f', 'Some', '0'),)))))
        return out

    @model('core::option::Option::take', 'core::mem::take')
    def take(self, m, st, c):
        a = c.args[0]
        v = m.deref(st, a)
        ty = self.argty(c, 0)
        d = NONE if c.f['path'].startswith('core::option') else self.default_of(ty)
        if d is None or a.op != 'mref':
            return None
        st = st.copy()
        m.assign_mref(st, a, d)
        return ret(st, v)

    @model('core::mem::replace', 'core::option::Option::replace')
    def replace(self, m, st, c):
        a = c.args[0]
        if a.op != 'mref':
            return None
        v = m.deref(st, a)
        st = st.copy()
        m.assign_mref(st, a, Some(c.args[1]) if c.f['path'].startswith('core::option') else c.args[1])
        return ret(st, v)

    @model('core::mem::swap')
    def swap(self, m, st, c):
        a, b = c.args
        if a.op != 'mref' or b.op != 'mref':
            return None
        x, y = m.deref(st, a), m.deref(st, b)
        st = st.copy()
        m.assign_mref(st, a, y)
        m.assign_mref(st, b, x)
        return ret(st, UNIT)

    @model('core::mem::drop', 'core::mem::forget', 'core::ptr::drop_in_place')
    def dropit(self, m, st, c):
        return ret(st, UNIT)

    @model('core::mem::discriminant')
    def mem_discriminant(self, m, st, c):
        t = self.argty(c, 0)
        return ret(st, m.discr(st, self.arg(m, st, c, 0), t))

    @model('core::intrinsics::discriminant_value')
    def discriminant_value(self, m, st, c):
        t = self.argty(c, 0)
        return ret(st, m.discr(st, self.arg(m, st, c, 0), t))

    # ------------------------------------------------------------- defaults
    def default_of(self, ty):
        if ty is None:
            return None
        p = ty.get('p')
        if ty['k'] == 'str' or p == 'alloc::string::String':
            return Str('')
        if p == OPTION:
            return NONE
        if p in SEQS or ty['k'] == 'slice':
            return EMPTY
        if ty['s'] in INTS:
            return Int(0)
        if ty['k'] == 'bool':
            return FALSE
        if p in SETS or p in MAPS:
            return EMPTYSET
        if p == 'ssi_jwk::Algorithm':
            # ssi-jwk 0.1: impl Default for Algorithm { Self::None }
            return T('adt', p, 'None', ())
        if ty['k'] == 'tuple' and not ty['a']:
            return UNIT
        if p == DATETIME:
            return Int(0)
        return None

    @model('core::default::Default::default')
    def default(self, m, st, c):
        ty = None
        if 'self' in c.f:
            ty = self.ir.types[c.f['self']]
        elif c.dty is not None:
            ty = self.ir.types[c.dty]
        v = self.default_of(ty)
        if v is not None:
            return ret(st, v)
        if 'body' in c.f:
            return None
        return ret(st, App('default:' + (ty['s'] if ty else '?')))

    # ------------------------------------------------------------- conversions
    @model('core::convert::From::from', 'core::convert::Into::into')
    def conv(self, m, st, c):
        into = c.f['path'].endswith('into')
        src = self.argty(c, 0)
        v = self.arg(m, st, c, 0)
        dst = self.ir.types[c.dty] if c.dty is not None else None
        if src is None or dst is None:
            return None
        if src['s'] == dst['s']:
            return ret(st, v)
        if 'body' in c.f and c.f.get('rcrate') not in ('core', 'alloc', 'std'):
            return None
        if self.isint(src) and self.isint(dst):
            st = st.copy()
            m.note_range(st, v, src)
            return ret(st, v)
        if src.get('p') == 'std::time::SystemTime' and (dst.get('p') or '').startswith('chrono::datetime::DateTime'):
            return ret(st, v)
        if src['k'] == 'bool' and self.isint(dst):
            return ret(st, Int(int(v.a[1])) if v.op == 'c' else App('b2i', v))
        if src['s'] == 'char' and dst.get('p') == 'alloc::string::String':
            return ret(st, self.chr_str(v))
        d = self.ir.types[self.ir.peel(c.dty)]
        if self.strlike(src) and (self.strlike(d) or d['s'].startswith('dyn')):
            if self.textlike(src) or not self.textlike(d):
                return ret(st, v)
        if d['s'] == src['s']:
            return ret(st, v)
        dp = dst.get('p')
        if dp == OPTION and self.ir.types[dst['a'][0]]['s'] == self.ir.types[self.rawarg(c, 0)]['s']:
            return ret(st, Some(v))
        if dp in SETS and src['k'] in ('array', 'slice'):
            return ret(st, App('setof', v))
        if dp == 'serde_json::value::Value':
            return ret(st, App('jsonval', v))
        if 'body' in c.f:
            return None
        if c.f.get('rpath', '').startswith('ssi_dids') and d.get('p') == 'alloc::string::String':
            return ret(st, App('display', v))
        return None

    def rawarg(self, c, i):
        return c.aty[i]

    @model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
    def tryconv(self, m, st, c):
        src = self.argty(c, 0)
        v = self.arg(m, st, c, 0)
        dst = self.ir.types[c.dty] if c.dty is not None else None
        if src is None or dst is None or dst.get('p') != RESULT:
            return None
        d = self.ir.types[self.ir.peel(dst['a'][0])]
        if self.isint(src) and self.isint(d):
            lo, hi = m.RANGES[d['s']]
            st = st.copy()
            m.note_range(st, v, src)
            out = []
            cond = T('and', Le0(lin_add(Int(lo), v, -1)), Le0(lin_add(v, Int(hi), -1)))
            for s, b in m.fork_bool(st, cond):
                out.append(Out('ret', s, Ok(v) if b else Err(App('tryfromint'))))
            return out
        if d.get('p') == 'ssi_dids::DIDURL':
            return self.didurl(m, st, v)
        if d['k'] == 'array' and d.get('len') is not None:
            n = d['len']
            out = []
            for s, b in m.fork_bool(st, IntCmp('Eq', length(v), Int(n))):
                out.append(Out('ret', s, Ok(T('arr', *[at(v, Int(i)) for i in range(n)])) if b else Err(v)))
            return out
        if src['s'] == d['s'] and c.f.get('rcrate') == 'core':
            return ret(st, Ok(v))
        return None

    def didurl(self, m, st, v):
        return ret(st, App('didurl', v))

    @model('core::str::traits::FromStr::from_str', 'core::str::parse')
    def from_str(self, m, st, c):
        dst = self.ir.types[c.dty] if c.dty is not None else None
        v = self.arg(m, st, c, 0)
        if dst is None or dst.get('p') != RESULT:
            return None
        d = self.ir.types[dst['a'][0]]
        if d.get('p') == 'ssi_dids::DIDURL':
            return self.didurl(m, st, v)
        if d.get('p') == 'alloc::string::String':
            return ret(st, Ok(v))
        if 'body' in c.f:
            return None
        # str::parse::<T>() with a local implementation
        if c.f['path'].endswith('parse'):
            for r in self.ir.roots:
                if r['name'] == 'from_str' and r.get('impl_trait', '').endswith('FromStr') and self.ir.types[r['impl_self']]['s'] == d['s'] and not r.get('derived'):
                    return m.exec_body(st, r['id'], [v], c.depth + 1)
        if d['s'] in INTS and not (v.op == 'c' or v.op == 'app' and v.a[0] == 'decimal'):
            # a number does not say how it was spelled
            return ret(st, App('parsed_int', Str(d['s']), v))
        return ret(st, App('parse|' + d['s'], v))

    @staticmethod
    def chr_str(v):
        if v.op == 'c' and v.a[0] == 'char':
            return Str(v.a[1])
        if v.op == 'c' and v.a[0] == 'int':
            return Str(chr(v.a[1]))
        return v

    # ------------------------------------------------------------- display
    def display(self, m, st, v, ty):
        v = m.deref(st, v)
        if ty is None:
            return App('display', v)
        if self.textlike(ty):
            return v
        if ty['s'] == 'char':
            return self.chr_str(v)
        if ty['s'] in INTS:
            if is_int(v):
                return Str(str(v.a[1]))
            return App('decimal', v)
        if ty['k'] == 'bool' and v.op == 'c':
            return Str('true' if v.a[1] else 'false')
        return App('display', v)

    @model('alloc::string::ToString::to_string')
    def to_string(self, m, st, c):
        ty = self.selfty(c)
        st = st.copy()
        v = self.arg(m, st, c, 0)
        if self.isint(ty):
            m.note_range(st, v, ty)
        return ret(st, self.display(m, st, v, ty))

    @model('core::fmt::rt::Argument::new_display')
    def arg_display(self, m, st, c):
        ty = self.peelty(c.f['targs'][-1]) if c.f.get('targs') else self.argty(c, 0)
        st = st.copy()
        v = self.arg(m, st, c, 0)
        if self.isint(ty):
            m.note_range(st, v, ty)
        return ret(st, T('fa', 'd', self.display(m, st, v, ty)))

    @model('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_lower_hex', 'core::fmt::rt::Argument::new_upper_hex',
           'core::fmt::rt::Argument::new_octal', 'core::fmt::rt::Argument::new_binary', 'core::fmt::rt::Argument::new_lower_exp',
           'core::fmt::rt::Argument::new_pointer')
    def arg_debug(self, m, st, c):
        k = c.f['path'].split('::')[-1][4:]
        return ret(st, T('fa', 'o', App(k, self.arg(m, st, c, 0))))

    @model('core::fmt::rt::Argument::from_usize')
    def arg_usize(self, m, st, c):
        return ret(st, T('fa', 'o', App('usize_arg', self.arg(m, st, c, 0))))

    @model('core::fmt::Arguments::from_str', 'core::fmt::Arguments::new_const')
    def args_str(self, m, st, c):
        v = self.arg(m, st, c, 0)
        if v.op == 'arr':
            v = cat(v.a)
        return ret(st, T('fargs', v))

    @model('core::fmt::Arguments::new')
    def args_new(self, m, st, c):
        tpl = self.arg(m, st, c, 0)
        av = self.arg(m, st, c, 1)
        if tpl.op == 'arr' and all(is_int(x) for x in tpl.a):
            b = [x.a[1] for x in tpl.a]
        elif tpl.op == 'c' and tpl.a[0] == 'bytes':
            b = list(tpl.a[1])
        else:
            return None
        if av.op != 'arr':
            return None
        parts = []
        i = 0
        n = 0
        while i < len(b) and b[i] != 0:
            x = b[i]
            i += 1
            if x < 0x80:
                parts.append(Str(bytes(b[i:i + x]).decode()))
                i += x
            elif x == 0x80:
                ln = b[i] | b[i + 1] << 8
                i += 2
                parts.append(Str(bytes(b[i:i + ln]).decode()))
                i += ln
            else:
                plain = True
                if x & 1:
                    if any(b[i:i + 4][:3]) or b[i + 3] not in (0, 0xe0, 0x60, 0x20):
                        plain = False
                    i += 4
                if x & 2:
                    i += 2
                    plain = False
                if x & 4:
                    i += 2
                    plain = False
                if x & 8:
                    k = b[i] | b[i + 1] << 8
                    i += 2
                else:
                    k = n
                n = k + 1
                a = m.deref(st, av.a[k])
                if a.op != 'fa':
                    return None
                parts.append(a.a[1] if plain else App('formatted', a.a[1], Int(x)))
        return ret(st, T('fargs', cat(parts)))

    @model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
    def fmt_format(self, m, st, c):
        v = self.arg(m, st, c, 0)
        if v.op == 'fargs':
            return ret(st, v.a[0])
        return None

    @model('core::fmt::Arguments::as_str')
    def fargs_as_str(self, m, st, c):
        v = self.arg(m, st, c, 0)
        if v.op == 'fargs':
            return ret(st, Some(v.a[0]) if is_str(v.a[0]) else NONE)
        return None

    @model('core::fmt::Write::write_fmt', 'core::fmt::Write::write_str', 'core::fmt::Write::write_char')
    def str_write(self, m, st, c):
        ty = self.selfty(c)
        if not self.textlike(ty) or c.args[0].op != 'mref':
            return None
        v = self.arg(m, st, c, 1)
        if v.op == 'fargs':
            v = v.a[0]
        st = st.copy()
        m.assign_mref(st, c.args[0], cat([m.deref(st, c.args[0]), self.chr_str(v)]))
        return ret(st, Ok(UNIT))

    # ------------------------------------------------------------- equality and order
    def eqterm(self, m, st, a, b, ty):
        """equality of two values as a boolean term; None when it needs a body"""
        a, b = m.deref(st, a), m.deref(st, b)
        if a is b:
            return TRUE
        if ty is not None and ty['s'] in INTS:
            return IntCmp('Eq', a, b)
        if ty is not None and ty['k'] == 'bool':
            return m.booleq(a, b)
        if ty is not None and ty['k'] == 'adt' and ty.get('p') in self.ir.adts:
            ad = self.ir.adts[ty['p']]
            if ad['kind'] == 'enum' and all(not v['f'] for v in ad['v']):
                uni = tuple(v['n'] for v in ad['v'])
                va, vb = st.variant(a), st.variant(b)
                if va and vb:
                    return Bool(va == vb)
                if vb:
                    return T('isvar', a, vb, uni)
                if va:
                    return T('isvar', b, va, uni)
                return T('eqdiscr', T('discr', a, ty['p']), T('discr', b, ty['p']), uni)
        if a.op == 'adt' and b.op == 'adt':
            if a.a[1] != b.a[1]:
                return FALSE
            if not a.a[2]:
                return TRUE
        if a.op in ('tup', 'arr') and b.op == a.op:
            if len(a.a) != len(b.a):
                return FALSE
            r = TRUE
            for x, y in zip(a.a, b.a):
                e = self.eqterm(m, st, x, y, None)
                if e.op == 'c':
                    if not e.a[1]:
                        return FALSE
                    continue
                r = e if r is TRUE else T('and', r, e)
            return r
        return Eq(a, b)

    @model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne', 'core::str::eq_ignore_ascii_case', 'core::array::equality::eq')
    def eq(self, m, st, c):
        ty = self.selfty(c)
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        ne = c.f['path'].endswith('::ne')
        if c.f['path'].endswith('eq_ignore_ascii_case'):
            return ret(st, self.ci(a, b))
        if 'body' in c.f and ty is not None and (ty['k'] == 'adt' and (ty.get('p') == OPTION or ty.get('p') in self.ir.adts and self.ir.adts[ty['p']].get('local'))):
            # structural comparison through the implementation
            ad = self.ir.adts.get(ty['p'])
            fieldless = ad and ad['kind'] == 'enum' and all(not v['f'] for v in ad['v'])
            if a is b:
                return ret(st, Bool(not ne))
            if not fieldless:
                return None
        if 'body' in c.f and c.f.get('rcrate') == 'core' and ty is not None and ty['k'] == 'tuple':
            return None
        if ty is not None and ty.get('box') and self.ir.types[ty['a'][0]].get('k') == 'adt':
            inner = self.ir.types[ty['a'][0]]
            for r in self.ir.roots:
                if r['name'] == 'eq' and r.get('impl_trait', '').endswith('PartialEq') and self.ir.types[r['impl_self']]['s'] == inner['s']:
                    if r['id'] not in m.stack:
                        return m.exec_body(st, r['id'], [a, b], c.depth + 1)
        st = st.copy()
        if self.isint(ty):
            m.note_range(st, a, ty)
            m.note_range(st, b, ty)
        if ty is not None and (ty.get('p') == DATETIME or ty.get('p') in NAIVE):
            r = IntCmp('Eq', a, b)
        else:
            r = self.eqterm(m, st, a, b, ty)
        return ret(st, m.bnot(r) if ne else r)

    def ci(self, a, b):
        if is_str(b):
            return CiEq(a, b.a[1])
        if is_str(a):
            return CiEq(b, a.a[1])
        if a is b:
            return TRUE
        return Eq(App('lower', a), App('lower', b))

    def intlike(self, ty):
        return ty is not None and (ty['s'] in INTS or ty.get('p') == DATETIME or ty.get('p') in NAIVE or 'duration::Duration' in (ty.get('p') or '') or (ty.get('p') or '').endswith('TimeDelta'))

    @model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
    def order(self, m, st, c):
        ty = self.selfty(c)
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.f['path'].split('::')[-1]]
        if self.intlike(ty):
            st = st.copy()
            self.note(m, st, a, ty)
            self.note(m, st, b, ty)
            return ret(st, IntCmp(op, a, b))
        if ty is not None and ty.get('p') == OPTION and self.intlike(self.ir.types[ty['a'][0]]):
            out = []
            for s, v in m.fork_variant(st, a, OPTION):
                for s2, w in m.fork_variant(s, b, OPTION):
                    if v == 'Some' and w == 'Some':
                        x, y = fld(a, 'Some', '0'), fld(b, 'Some', '0')
                        out.append(Out('ret', s2, IntCmp(op, x, y)))
                    else:
                        i, j = int(v == 'Some'), int(w == 'Some')
                        out.append(Out('ret', s2, Bool({'Lt': i < j, 'Le': i <= j, 'Gt': i > j, 'Ge': i >= j}[op])))
            return out
        if self.textlike(ty):
            # exactly one of before, equal and after
            out = []
            for s, w in self.text_order(m, st, a, b):
                out.append(Out('ret', s, Bool({'Lt': w < 0, 'Le': w <= 0, 'Gt': w > 0, 'Ge': w >= 0}[op])))
            return out
        return None

    @staticmethod
    def text_order(m, st, a, b):
        if a is b:
            return [(st, 0)]
        if is_str(a) and is_str(b):
            x, y = a.a[1].encode(), b.a[1].encode()
            return [(st, (x > y) - (x < y))]
        x, y, sign = (a, b, 1) if repr(a) <= repr(b) else (b, a, -1)
        out = []
        for s, e in m.fork_bool(st, Eq(a, b)):
            if e:
                out.append((s, 0))
            else:
                for s2, l in m.fork_bool(s, App('cmpLt', x, y)):
                    out.append((s2, -sign if l else sign))
        return out

    def note(self, m, st, v, ty):
        if self.isint(ty):
            m.note_range(st, v, ty)
        elif ty.get('p') == DATETIME:
            self.note_dt(st, v)

    def note_dt(self, st, v):
        for x in lin_parts(v)[1]:
            if x.op == 'app' and x.a[0] == 'now':
                lo, hi = NOW_MIN, NOW_MAX
            else:
                lo, hi = DT_MIN, DT_MAX
            if lin_parts(v)[1][x] == 1 and len(lin_parts(v)[1]) == 1 and lin_parts(v)[0] == 0:
                st.assume_le(x, hi)
                st.assume_le(lin_scale(x, -1), -lo)

    @model('core::cmp::PartialOrd::partial_cmp', 'core::cmp::Ord::cmp')
    def cmp3(self, m, st, c):
        ty = self.selfty(c)
        if not self.intlike(ty):
            if self.textlike(ty):
                a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
                out = []
                for s, w in self.text_order(m, st, a, b):
                    out.append(Out('ret', s, self.ordv({-1: 'Less', 0: 'Equal', 1: 'Greater'}[w], c)))
                return out
            return None
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        st = st.copy()
        self.note(m, st, a, ty)
        self.note(m, st, b, ty)
        out = []
        for s, l in m.fork_bool(st, IntCmp('Lt', a, b)):
            if l:
                out.append(Out('ret', s, self.ordv('Less', c)))
            else:
                for s2, g in m.fork_bool(s, IntCmp('Gt', a, b)):
                    out.append(Out('ret', s2, self.ordv('Greater' if g else 'Equal', c)))
        return out

    @staticmethod
    def ordv(v, c):
        o = T('adt', ORDERING, v, ())
        return Some(o) if c.f['path'].endswith('partial_cmp') else o

    @model('core::cmp::Ord::max', 'core::cmp::Ord::min', 'core::cmp::max', 'core::cmp::min')
    def maxmin(self, m, st, c):
        ty = self.selfty(c)
        if not self.intlike(ty):
            return None
        a, b = c.args
        st = st.copy()
        self.note(m, st, a, ty)
        self.note(m, st, b, ty)
        mx = c.f['path'].endswith('max')
        out = []
        for s, l in m.fork_bool(st, IntCmp('Le', a, b)):
            out.append(Out('ret', s, (b if l else a) if mx else (a if l else b)))
        return out

    # ------------------------------------------------------------- integers
    @model('core::num::to_be_bytes', 'core::num::to_le_bytes', 'core::num::to_ne_bytes')
    def int_bytes(self, m, st, c):
        # the integer and nothing else (all of one width: arrays of different lengths are not compared)
        return ret(st, App('int_' + c.f['path'].split('::')[-1], self.arg(m, st, c, 0)))

    @model('core::num::checked_ilog10', 'core::num::ilog10')
    def ilog10(self, m, st, c):
        v = self.arg(m, st, c, 0)
        ty = self.argty(c, 0)
        st = st.copy()
        m.note_range(st, v, ty)
        chk = c.f['path'].endswith('checked_ilog10')
        out = []
        for s, z in m.fork_bool(st, IntCmp('Le', v, Int(0))):
            if z:
                out.append(Out('ret', s, NONE) if chk else Out('panic', s, ('ilog10 of zero', 'ilog10', c.span)))
            else:
                r = Int(len(str(v.a[1])) - 1) if is_int(v) else App('ilog10', v)
                out.append(Out('ret', s, Some(r) if chk else r))
        return out

    @model('core::num::leading_zeros', 'core::num::checked_ilog2', 'core::num::ilog2')
    def bitlength(self, m, st, c):
        """in terms of the number of bits an unsigned number needs"""
        v, ty = self.arg(m, st, c, 0), self.argty(c, 0)
        if ty is None or not ty.get('s', '').startswith('u'):
            return None
        w = int(ty['s'][1:].replace('size', '64'))
        bits = Int(v.a[1].bit_length()) if is_int(v) else App('bits', v)
        st = st.copy()
        m.note_range(st, v, ty)
        n = c.f['path'].split('::')[-1]
        if n == 'leading_zeros':
            return ret(st, lin_add(Int(w), bits, -1))
        out = []
        for s, z in m.fork_bool(st, IntCmp('Le', v, Int(0))):
            if z:
                out.append(Out('ret', s, NONE) if n != 'ilog2' else Out('panic', s, ('ilog2 of zero', 'ilog2', c.span)))
            else:
                r = lin_add(bits, Int(-1))
                out.append(Out('ret', s, Some(r) if n != 'ilog2' else r))
        return out

    @model('core::num::checked_ilog', 'core::num::ilog')
    def ilog(self, m, st, c):
        b = self.arg(m, st, c, 1)
        if b is not Int(10):
            return None
        v = self.arg(m, st, c, 0)
        st = st.copy()
        m.note_range(st, v, self.argty(c, 0))
        chk = 'checked' in c.f['path']
        out = []
        for s, z in m.fork_bool(st, IntCmp('Le', v, Int(0))):
            if z:
                out.append(Out('ret', s, NONE) if chk else Out('panic', s, ('ilog of zero', 'ilog', c.span)))
            else:
                out.append(Out('ret', s, Some(App('ilog10', v)) if chk else App('ilog10', v)))
        return out

    @model('core::num::checked_add', 'core::num::checked_sub', 'core::num::checked_mul', 'core::num::saturating_add',
           'core::num::saturating_sub', 'core::num::saturating_mul', 'core::num::wrapping_add', 'core::num::wrapping_sub', 'core::num::wrapping_mul',
           'core::num::overflowing_add', 'core::num::overflowing_sub', 'core::num::overflowing_mul')
    def arith(self, m, st, c):
        n = c.f['path'].split('::')[-1]
        kind, op = n.split('_')
        ty = self.argty(c, 0)
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        st = st.copy()
        m.note_range(st, a, ty)
        m.note_range(st, b, ty)
        r = m.binop(st, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[op], a, b, ty)
        ov = m.overflow(st, r, ty)
        lo, hi = m.RANGES[ty['s']]
        out = []
        for s, o in m.fork_bool(st, ov):
            if kind == 'checked':
                out.append(Out('ret', s, NONE if o else Some(r)))
            elif kind == 'overflowing':
                out.append(Out('ret', s, T('tup', App('wrap', r) if o else r, Bool(o))))
            elif not o:
                out.append(Out('ret', s, r))
            elif kind == 'wrapping':
                out.append(Out('ret', s, App('wrap', r)))
            else:
                for s2, up in m.fork_bool(s, Not(Le0(lin_add(r, Int(hi), -1)))):
                    out.append(Out('ret', s2, Int(hi) if up else Int(lo)))
        return out

    @model('core::num::pow', 'core::num::checked_pow')
    def powc(self, m, st, c):
        a, b = c.args[0], c.args[1]
        if is_int(a) and is_int(b):
            v = a.a[1] ** b.a[1]
            lo, hi = m.RANGES[self.argty(c, 0)['s']]
            if lo <= v <= hi:
                return ret(st, Some(Int(v)) if 'checked' in c.f['path'] else Int(v))
        return None

    @model('core::num::is_power_of_two_', 'core::num::abs', 'core::num::unsigned_abs', 'core::num::rem_euclid')
    def numopaque(self, m, st, c):
        return None

    @model('core::num::abs_diff')
    def abs_diff(self, m, st, c):
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        d = lin_add(a, b, -1)
        if is_int(d):
            return ret(st, Int(abs(d.a[1])))
        r = App('absdiff', a, b)
        st = st.copy()
        for s in (1, -1):
            st.assume_le(lin_add(lin_scale(d, s), r, -1))
        return ret(st, r)

    @model('core::num::is_positive', 'core::num::is_negative')
    def sign_of(self, m, st, c):
        return ret(st, IntCmp('Gt' if c.f['path'].endswith('positive') else 'Lt', self.arg(m, st, c, 0), Int(0)))

    @model(*['core::%s::to_%s' % (x, y) for x in ('char::methods', 'char', 'num') for y in ('ascii_lowercase', 'lowercase', 'ascii_uppercase', 'uppercase')])
    def chlower(self, m, st, c):
        v = self.arg(m, st, c, 0)
        k = 'lower' if c.f['path'].endswith('lowercase') else 'upper'
        if v.op == 'c' and v.a[0] == 'char':
            return ret(st, T('c', 'char', getattr(v.a[1], k)())) if len(getattr(v.a[1], k)()) == 1 else None
        if is_int(v):
            return ret(st, Int(ord(getattr(chr(v.a[1]), k)()) if v.a[1] < 128 else v.a[1]))
        return ret(st, App(k, v))

    @model('core::num::eq_ignore_ascii_case', 'core::char::methods::eq_ignore_ascii_case', 'core::char::eq_ignore_ascii_case')
    def ch_same(self, m, st, c):
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        return ret(st, Eq(App('lower', a), App('lower', b)))

    # ------------------------------------------------------------- text
    @model('alloc::str::to_lowercase', 'alloc::str::to_ascii_lowercase', 'core::str::to_ascii_lowercase', 'alloc::slice::to_ascii_lowercase')
    def lower(self, m, st, c):
        return ret(st, self.fold('lower', self.arg(m, st, c, 0)))

    @model('alloc::str::to_uppercase', 'alloc::str::to_ascii_uppercase', 'core::str::to_ascii_uppercase')
    def upper(self, m, st, c):
        return ret(st, self.fold('upper', self.arg(m, st, c, 0)))

    @staticmethod
    def fold(k, v):
        if is_str(v):
            return Str(v.a[1].lower() if k == 'lower' else v.a[1].upper())
        if v.op == 'app' and v.a[0] in ('lower', 'upper'):
            v = v.a[1]
        return App(k, v)

    @model('core::str::make_ascii_lowercase', 'core::str::make_ascii_uppercase', 'core::slice::ascii::make_ascii_lowercase', 'core::slice::ascii::make_ascii_uppercase',
           'core::slice::make_ascii_lowercase', 'core::slice::make_ascii_uppercase')
    def fold_mut(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        st = st.copy()
        k = 'lower' if c.f['path'].endswith('lowercase') else 'upper'
        m.assign_mref(st, c.args[0], self.fold(k, m.deref(st, c.args[0])))
        return ret(st, UNIT)

    def pat(self, m, st, v):
        """delimiter text of a pattern argument, or None"""
        v = m.deref(st, v)
        if v.op == 'c' and v.a[0] in ('char', 'str'):
            return Str(v.a[1])
        if v.op == 'arr' and len(v.a) == 1 and v.a[0].op == 'c':
            return Str(v.a[0].a[1])
        if v.op == 'clo' or v.op == 'fnv':
            return self.pat_closure(m, st, v)
        return None

    def pat_closure(self, m, st, f):
        """a predicate |c| c == 'x'"""
        x = T('p', '#char')
        try:
            outs = m.call_value(st.copy(), f, [x], 1)
        except Undecided:
            return None
        if len(outs) == 1 and outs[0].kind == 'ret':
            b = outs[0].val
            if b.op == 'eq' and b.a[0] is x and b.a[1].op == 'c':
                return Str(b.a[1].a[1])
        if len(outs) == 2 and all(o.kind == 'ret' and o.val.op == 'c' for o in outs):
            t = [o for o in outs if o.val.a[1]]
            if len(t) == 1:
                eqs = [a for a, v in t[0].st.atoms.items() if v and a.op == 'eq' and a.a[0] is x and a.a[1].op == 'c' and a not in st.atoms]
                if len(eqs) == 1:
                    return Str(eqs[0].a[1].a[1])
        return None

    @model('core::str::split')
    def split(self, m, st, c):
        d = self.pat(m, st, c.args[1])
        s = self.arg(m, st, c, 0)
        if d is None:
            return None
        if is_str(s) and d.a[1]:
            return ret(st, T('it', T('arr', *[Str(x) for x in s.a[1].split(d.a[1])]), Int(0)))
        return ret(st, T('it', App('split', s, d), Int(0)))

    @model('core::str::splitn')
    def splitn(self, m, st, c):
        n = self.arg(m, st, c, 1)
        d = self.pat(m, st, c.args[2])
        if d is None or not is_int(n):
            return None
        s = self.arg(m, st, c, 0)
        if n.a[1] == 0:
            return ret(st, T('it', EMPTY, Int(0)))
        if n.a[1] == 1:
            return ret(st, T('it', T('arr', s), Int(0)))
        return ret(st, T('it', App('splitn', s, d, n), Int(0)))

    @model('core::str::rsplit')
    def rsplit(self, m, st, c):
        d = self.pat(m, st, c.args[1])
        if d is None:
            return None
        return ret(st, T('it', T('rev', App('split', self.arg(m, st, c, 0), d)), Int(0)))

    @model('core::str::split_terminator', 'core::str::rsplitn', 'core::str::split_inclusive', 'core::str::split_whitespace',
           'core::str::split_ascii_whitespace', 'core::str::lines', 'core::str::rsplit_terminator', 'core::str::char_indices', 'core::str::rmatches')
    def split_other(self, m, st, c):
        n = c.f['path'].split('::')[-1]
        return ret(st, T('it', App(n, *[m.deref(st, a) for a in c.args]), Int(0)))

    @model('core::str::split_once')
    def split_once(self, m, st, c):
        d = self.pat(m, st, c.args[1])
        s = self.arg(m, st, c, 0)
        if d is None:
            return None
        # by the number of segments: the rest after the last delimiter is the last segment
        out = []
        for s1, b in m.fork_bool(st, IntCmp('Ge', nseg(s, d), Int(2))):
            if not b:
                out.append(Out('ret', s1, NONE))
                continue
            for s2, two in m.fork_bool(s1, IntCmp('Le', nseg(s, d), Int(2))):
                out.append(Out('ret', s2, Some(T('tup', seg(s, d, 0), seg(s, d, 1) if two else rest(s, d, 1)))))
        return out

    @model('core::str::rsplit_once')
    def rsplit_once(self, m, st, c):
        d = self.pat(m, st, c.args[1])
        s = self.arg(m, st, c, 0)
        if d is None:
            return None
        out = []
        for s1, b in m.fork_bool(st, IntCmp('Ge', nseg(s, d), Int(2))):
            if not b:
                out.append(Out('ret', s1, NONE))
                continue
            # when the number of segments is known the cut is known
            lo, hi = s1.lin_range(nseg(s, d))
            if lo is not None and lo == hi:
                head = cat(sum([[d, seg(s, d, i)] for i in range(lo - 1)], [])[1:])
                out.append(Out('ret', s1, Some(T('tup', head, seg(s, d, lo - 1)))))
            else:
                out.append(Out('ret', s1, Some(T('tup', App('rhead', s, d), App('rtail', s, d)))))
        return out

    @model('core::str::contains')
    def str_contains(self, m, st, c):
        d = self.pat(m, st, c.args[1])
        s = self.arg(m, st, c, 0)
        if d is None:
            return ret(st, App('contains', s, m.deref(st, c.args[1])))
        return ret(st, IntCmp('Ge', nseg(s, d), Int(2)))

    @model('core::str::matches', 'core::str::match_indices')
    def matches(self, m, st, c):
        d = self.pat(m, st, c.args[1])
        if d is None:
            return None
        return ret(st, T('it', App(c.f['path'].split('::')[-1].split('<')[0], self.arg(m, st, c, 0), d), Int(0)))

    @model('core::str::find', 'core::str::rfind')
    def find(self, m, st, c):
        d = self.pat(m, st, c.args[1])
        s = self.arg(m, st, c, 0)
        if d is None:
            return None
        return self.option(m, st, IntCmp('Ge', nseg(s, d), Int(2)), App('len', seg(s, d, 0)) if c.f['path'].endswith('::find') else App('rfindpos', s, d))

    @model('core::str::starts_with', 'core::str::ends_with', 'core::str::trim', 'core::str::trim_start', 'core::str::trim_end',
           'core::str::trim_matches', 'core::str::trim_start_matches', 'core::str::trim_end_matches', 'alloc::str::replace', 'alloc::str::replacen',
           'alloc::str::repeat', 'core::str::is_char_boundary', 'core::str::is_ascii', 'core::str::trim_left', 'core::str::trim_right')
    def lossy(self, m, st, c):
        n = c.f['path'].split('::')[-1].split('<')[0]
        a = [m.deref(st, x) for x in c.args]
        a = [Str(x.a[1]) if x.op == 'c' and x.a[0] == 'char' else x for x in a]
        if all(is_str(x) for x in a):
            if n == 'starts_with':
                return ret(st, Bool(a[0].a[1].startswith(a[1].a[1])))
            if n == 'ends_with':
                return ret(st, Bool(a[0].a[1].endswith(a[1].a[1])))
        return ret(st, App(n, *a))

    @model('core::str::strip_prefix', 'core::str::strip_suffix')
    def strip(self, m, st, c):
        n = c.f['path'].split('::')[-1]
        d = self.pat(m, st, c.args[1])
        s = self.arg(m, st, c, 0)
        if d is None:
            d = m.deref(st, c.args[1])
            if not self.textlike(self.argty(c, 1)):
                return None
        if is_str(s) and is_str(d):
            t = s.a[1]
            if n == 'strip_prefix':
                return ret(st, Some(Str(t[len(d.a[1]):])) if t.startswith(d.a[1]) else NONE)
            return ret(st, Some(Str(t[:len(t) - len(d.a[1])])) if t.endswith(d.a[1]) else NONE)
        return self.option(m, st, App('starts_with' if n == 'strip_prefix' else 'ends_with', s, d), App(n, s, d))

    @model('core::str::is_empty', 'alloc::string::String::is_empty', 'alloc::vec::Vec::is_empty', 'core::slice::is_empty',
           *each(SETS + MAPS, 'is_empty'))
    def is_empty(self, m, st, c):
        v = self.arg(m, st, c, 0)
        ty = self.argty(c, 0)
        if self.textlike(ty):
            return ret(st, Eq(v, Str('')))
        return ret(st, IntCmp('Eq', length(v), Int(0)))

    @model('core::str::len', 'alloc::string::String::len')
    def str_len(self, m, st, c):
        return ret(st, self.textlen(self.arg(m, st, c, 0)))

    @staticmethod
    def textlen(v):
        if v.op == 'app' and v.a[0] == 'decimal':
            return App('digits', v.a[1])
        if v.op == 'cat':
            r = Int(0)
            for x in v.a:
                r = lin_add(r, Text.textlen(x))
            return r
        return length(v)

    @model('core::str::chars', 'core::str::bytes')
    def chars(self, m, st, c):
        v = self.arg(m, st, c, 0)
        if is_str(v) and len(v.a[1]) < 20:
            if c.f['path'].endswith('chars'):
                return ret(st, T('it', T('arr', *[T('c', 'char', x) for x in v.a[1]]), Int(0)))
            return ret(st, T('it', T('arr', *[Int(x) for x in v.a[1].encode()]), Int(0)))
        return ret(st, T('it', App('chars' if c.f['path'].endswith('chars') else 'bytes', v), Int(0)))

    @model('alloc::string::String::new', 'alloc::string::String::with_capacity')
    def str_new(self, m, st, c):
        return ret(st, Str(''))

    @model('alloc::string::String::push_str', 'alloc::string::String::push')
    def push_str(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        st = st.copy()
        m.assign_mref(st, c.args[0], cat([m.deref(st, c.args[0]), self.chr_str(self.arg(m, st, c, 1))]))
        return ret(st, UNIT)

    @model('alloc::string::String::insert_str', 'alloc::string::String::insert')
    def insert_str(self, m, st, c):
        if c.args[0].op != 'mref':
            return None
        v, i, x = m.deref(st, c.args[0]), self.arg(m, st, c, 1), self.chr_str(self.arg(m, st, c, 2))
        st = st.copy()
        if i is Int(0):
            m.assign_mref(st, c.args[0], cat([x, v]))
        elif i in (length(v), self.textlen(v)):
            m.assign_mref(st, c.args[0], cat([v, x]))
        else:
            return None
        return ret(st, UNIT)

    @model('alloc::string::String::reserve', 'alloc::vec::Vec::reserve', 'alloc::vec::Vec::reserve_exact')
    def reserve(self, m, st, c):
        return ret(st, UNIT)

    @model('core::ops::arith::AddAssign::add_assign', 'core::ops::arith::SubAssign::sub_assign')
    def add_assign(self, m, st, c):
        ty = self.selfty(c)
        if c.args[0].op != 'mref':
            return None
        st = st.copy()
        if self.textlike(ty):
            m.assign_mref(st, c.args[0], cat([m.deref(st, c.args[0]), self.arg(m, st, c, 1)]))
            return ret(st, UNIT)
        if ty is not None and ty.get('p') == DATETIME:
            return self.dt_addassign(m, st, c)
        return None

    @model('core::ops::arith::Add::add', 'core::ops::arith::Sub::sub', 'core::ops::arith::Mul::mul', 'core::ops::arith::Neg::neg')
    def op_add(self, m, st, c):
        ty = self.selfty(c)
        op = c.f['path'].split('::')[-1]
        if op == 'add' and self.textlike(ty):
            return ret(st, cat([self.arg(m, st, c, 0), self.arg(m, st, c, 1)]))
        if ty is not None and (ty.get('p') == DATETIME or self.isdur(ty)):
            return self.dt_arith(m, st, c, op)
        return None

    @model('alloc::slice::join', 'alloc::slice::concat', 'alloc::slice::Join::join', 'alloc::slice::Concat::concat')
    def join(self, m, st, c):
        v = self.arg(m, st, c, 0)
        sep = self.arg(m, st, c, 1) if len(c.args) > 1 else Str('')
        sep = self.chr_str(sep)
        if sep.op == 'arr' and not sep.a:
            sep = Str('')
        if not is_str(sep):
            return None
        return ret(st, self.joined(v, sep))

    @staticmethod
    def joined(v, sep):
        if v.op == 'push':
            xs = []
            while v.op == 'push':
                xs.insert(0, v.a[1])
                v = v.a[0]
            if v.op == 'arr':
                v = T('arr', *(tuple(v.a) + tuple(xs)))
            else:
                return App('joined', v, sep)
        if v.op == 'arr':
            parts = []
            for i, x in enumerate(v.a):
                if i:
                    parts.append(sep)
                parts.append(x)
            return cat(parts)
        if v.op == 'app' and v.a[0] == 'split' and v.a[2] is sep:
            return v.a[1]
        return joined_text(v, sep)

    @model('core::str::from_utf8', 'core::str::converts::from_utf8', 'alloc::string::String::from_utf8')
    def from_utf8(self, m, st, c):
        v = self.arg(m, st, c, 0)
        if is_str(v):
            return ret(st, Ok(v))
        return self.opaque_result(m, st, App('from_utf8', v), v)

    @model('core::str::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked', 'alloc::string::String::from_utf8_unchecked')
    def from_utf8_unchecked(self, m, st, c):
        """undefined unless the bytes are text; bytes obtained from text are the text itself here"""
        v = self.arg(m, st, c, 0)
        if is_str(v) or self.istext(v):
            return ret(st, v)
        if v.op == 'fld' and v.a[0].op == 'app' and v.a[0].a[0] == 'b64dec':
            return [Out('ret', s, v) if w == 'Ok' else Out('panic', s, ('undefined behaviour', 'from_utf8_unchecked on bytes that may not be text', c.span))
                    for s, w in m.fork_variant(st, App('from_utf8', v), RESULT)]
        return None

    @staticmethod
    def istext(v):
        return v.op == 'cat' or v.op == 'app' and v.a[0] in ('seg', 'rest', 'b64enc', 'lower', 'upper', 'utf8_lossy') or \
            v.op == 'fld' and v.a[1:] == ('Ok', '0') and v.a[0].op == 'app' and v.a[0].a[0] in ('json_ser', 'from_utf8')

    @model('core::option::Option::unwrap_unchecked', 'core::result::Result::unwrap_unchecked', 'core::result::Result::unwrap_err_unchecked')
    def unwrap_unchecked(self, m, st, c):
        v = self.arg(m, st, c, 0)
        res = 'Result' in c.f['path']
        good = 'Err' if 'unwrap_err' in c.f['path'] else 'Ok' if res else 'Some'
        return [Out('ret', s, fld(v, good, '0')) if w == good else Out('panic', s, ('undefined behaviour', 'unwrap_unchecked of ' + w, c.span))
                for s, w in m.fork_variant(st, v, RESULT if res else OPTION)]

    @model('core::hint::unreachable_unchecked', 'core::intrinsics::unreachable')
    def unreachable_unchecked(self, m, st, c):
        return [Out('panic', st, ('undefined behaviour', 'unreachable_unchecked', c.span))]

    @model('alloc::string::String::from_utf8_lossy', 'serde::__private::string::from_utf8_lossy')
    def from_utf8_lossy(self, m, st, c):
        return ret(st, App('utf8_lossy', self.arg(m, st, c, 0)))

    # ------------------------------------------------------------- codecs
    def engine_name(self, e):
        """what a base64 engine does, from its configuration"""
        if e.op != 'adt':
            return repr(e)
        try:
            tab = fld(e, '', 'encode_table')
            t = [x.a[1] for x in tab.a]
            cfg = fld(e, '', 'config')
            std = [ord(x) for x in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789']
            alpha = {(43, 47): 'standard', (45, 95): 'url-safe'}.get(tuple(t[62:]), 'other') if t[:62] == std else 'other'
            dec = fld(e, '', 'decode_table')
            ok = all(is_int(x) for x in dec.a) and all(dec.a[ch].a[1] == i for i, ch in enumerate(t)) and sum(1 for x in dec.a if x.a[1] < 64) == 64
            pad = 'padded' if fld(cfg, '', 'encode_padding').a[1] else 'unpadded'
            trail = 'lax-bits' if fld(cfg, '', 'decode_allow_trailing_bits').a[1] else 'strict'
            mode = fld(cfg, '', 'decode_padding_mode').a[1]
            return '%s,%s,%s,%s%s' % (alpha, pad, mode, trail, '' if ok else ',tables-differ')
        except Exception:
            return 'unknown-engine'

    @model('base64::engine::Engine::decode')
    def b64dec(self, m, st, c):
        e = self.engine_name(self.arg(m, st, c, 0))
        return ret(st, App('b64dec', Str(e), self.arg(m, st, c, 1)))

    @model('base64::engine::Engine::encode')
    def b64enc(self, m, st, c):
        e = self.engine_name(self.arg(m, st, c, 0))
        return ret(st, App('b64enc', Str(e), self.arg(m, st, c, 1)))

    @model('base64::engine::Engine::encode_string')
    def b64encs(self, m, st, c):
        e = self.engine_name(self.arg(m, st, c, 0))
        if c.args[2].op != 'mref':
            return None
        st = st.copy()
        m.assign_mref(st, c.args[2], cat([m.deref(st, c.args[2]), App('b64enc', Str(e), self.arg(m, st, c, 1))]))
        return ret(st, UNIT)

    @model('urlencoding::enc::encode', 'urlencoding::enc::encode_binary', 'urlencoding::encode', 'urlencoding::encode_binary')
    def pct(self, m, st, c):
        return ret(st, App('pct', self.arg(m, st, c, 0)))

    @model('urlencoding::dec::decode', 'urlencoding::decode')
    def pct_decode(self, m, st, c):
        v = self.arg(m, st, c, 0)
        if v.op == 'app' and v.a[0] == 'pct':
            return ret(st, Ok(v.a[1]))
        if is_str(v) and '%' not in v.a[1]:
            return ret(st, Ok(v))
        return self.opaque_result(m, st, App('pct_decode', v))

    @model('serde_path_to_error::Error::inner', 'serde_path_to_error::Error::into_inner')
    def path_error_inner(self, m, st, c):
        return ret(st, App('error_inner', self.arg(m, st, c, 0)))

    @model('serde_path_to_error::Error::path')
    def path_error_path(self, m, st, c):
        return ret(st, App('error_path', self.arg(m, st, c, 0)))

    @model('urlencoding::enc::Encoded::new')
    def pct_new(self, m, st, c):
        return ret(st, App('encoded', self.arg(m, st, c, 0)))

    @model('urlencoding::enc::Encoded::to_string', 'urlencoding::enc::Encoded::to_str')
    def pct_text(self, m, st, c):
        v = self.arg(m, st, c, 0)
        return ret(st, App('pct', v.a[1])) if v.op == 'app' and v.a[0] == 'encoded' else None

    @model('serde_json::ser::to_string', 'serde_json::ser::to_vec')
    def json_ser(self, m, st, c):
        v = self.arg(m, st, c, 0)
        ty = self.ir.types[self.ir.peel(c.f['targs'][0])]['s'] if c.f.get('targs') else '?'
        t = App('json_ser', v)
        if ty == 'ssi_jwk::Algorithm':
            # derived Serialize of a fieldless enum writes a string: no failure
            st = st.copy()
            try:
                st.set_variant(t, 'Ok')
            except Dead:
                return []
            st.log = st.log + (('json_ser', ty, (v,), t),)
            return ret(st, t)
        return self.opaque_result(m, st, t, None, ('json_ser', ty, (v,), t))

    @model('serde_json::value::to_value')
    def json_val(self, m, st, c):
        v = self.arg(m, st, c, 0)
        t = App('json_val', v)
        return ret(st, t)

    @model('serde_json::de::from_slice', 'serde_json::de::from_str')
    def json_de(self, m, st, c):
        v = self.arg(m, st, c, 0)
        ty = self.ir.types[c.f['targs'][-1]]['s'] if c.f.get('targs') else '?'
        dst = self.ir.types[c.dty]
        if dst.get('p') == RESULT:
            ty = self.ir.types[dst['a'][0]]['s']
        return ret(st, App('json_de|' + ty, v))

    @model('serde_json::value::from_value')
    def json_fromval(self, m, st, c):
        v = self.arg(m, st, c, 0)
        dst = self.ir.types[c.dty]
        ty = self.ir.types[dst['a'][0]]['s'] if dst.get('p') == RESULT else '?'
        # the value of a just parsed text
        if v.op == 'fld' and v.a[1] == 'Ok' and v.a[0].op == 'app' and v.a[0].a[0] == 'json_de|serde_json::Value':
            v = v.a[0].a[1]
        return ret(st, App('json_de|' + ty, v))

    # ------------------------------------------------------------- ssi
    @model('ssi_dids::Document::select_object')
    def select_object(self, m, st, c):
        st = st.copy()
        t = App('select_object', self.arg(m, st, c, 0), self.arg(m, st, c, 1))
        self.only_constructed(st, t)
        return ret(st, t)

    @model('ssi_dids::VerificationMethodMap::get_jwk')
    def get_jwk(self, m, st, c):
        return ret(st, App('get_jwk', self.arg(m, st, c, 0)))

    @model('ssi_jwk::JWK::get_algorithm')
    def get_algorithm(self, m, st, c):
        return ret(st, App('get_algorithm', self.arg(m, st, c, 0)))
