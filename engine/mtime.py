"""Transfer functions: clock, instants and durations (all in nanoseconds)."""
from mbase import *

UNITS = {'weeks': 604800 * NS, 'days': 86400 * NS, 'hours': 3600 * NS, 'minutes': 60 * NS, 'seconds': NS, 'milliseconds': 10**6, 'microseconds': 10**3, 'nanoseconds': 1}
DUR = ('time::duration::Duration', 'chrono::duration::Duration', 'chrono::time_delta::TimeDelta', 'core::time::Duration')
DTP = 'chrono::datetime::DateTime'


def dt_overflow(m, st, t):
    """boolean term: the instant t is outside chrono's range"""
    lo, hi = st.lin_range(t)
    parts = []
    if hi is None or hi > DT_MAX:
        parts.append(Not(Le0(lin_add(t, Int(DT_MAX), -1))))
    if lo is None or lo < DT_MIN:
        parts.append(Not(Le0(lin_add(Int(DT_MIN), t, -1))))
    parts = [p for p in parts if not (p.op == 'c' and not p.a[1])]
    if not parts:
        return FALSE
    return parts[0] if len(parts) == 1 else T('or', *parts)


def dur_fits(v, u):
    """boolean term: the duration v, in units of u nanoseconds, fits an i64 (rounding towards zero)"""
    return T('and', Le0(lin_add(v, Int((2**63 - 1) * u + u - 1), -1)), Le0(lin_add(Int(-(2**63) * u - (u - 1)), v, -1)))


class Time:
    def isdur(self, ty):
        return ty.get('p') in DUR

    @model('chrono::offset::utc::Utc::now', 'chrono::offset::Utc::now', 'std::time::SystemTime::now')
    def now(self, m, st, c):
        st = st.copy()
        t = App('now', Int(st.nnow))
        st.nnow += 1
        self.note_dt(st, t)
        return ret(st, t)

    def noteatoms(self, m, st, v):
        for x in lin_parts(v)[1]:
            if x.op == 'app' and x.a[0] == 'now':
                self.note_dt(st, x)

    def dur_ctor(self, m, st, c):
        n = c.f['path'].split('::')[-1]
        tr = n.startswith('try_')
        unit = n[4:] if tr else n
        v = self.arg(m, st, c, 0)
        st = st.copy()
        ty = self.argty(c, 0)
        if ty is not None:
            m.note_range(st, v, ty)
        r = lin_scale(v, UNITS[unit])
        out = []
        for s, ok in m.fork_bool(st, dur_ok(r)):
            if ok:
                out.append(Out('ret', s, Some(r) if tr else r))
            else:
                out.append(Out('ret', s, NONE) if tr else Out('panic', s, ('duration out of range', n, c.span)))
        return out
    dur_ctor.keys = each(DUR, *UNITS) + each(DUR, *['try_' + u for u in UNITS])

    @model('core::time::Duration::from_secs', 'core::time::Duration::from_millis')
    def std_dur(self, m, st, c):
        v = self.arg(m, st, c, 0)
        st = st.copy()
        m.note_range(st, v, self.argty(c, 0))
        return ret(st, lin_scale(v, NS if c.f['path'].endswith('secs') else 10**6))

    @model(*each(DUR, 'from_std'))
    def from_std(self, m, st, c):
        v = self.arg(m, st, c, 0)
        return [Out('ret', s, Ok(v) if b else Err(App('outofrange'))) for s, b in m.fork_bool(st, dur_ok(v))]

    @model(*each(DUR, 'zero'))
    def dur_zero(self, m, st, c):
        return ret(st, Int(0))

    @model(*each(DUR, 'num_seconds', 'num_minutes', 'num_hours', 'num_days', 'num_weeks', 'num_milliseconds', 'num_nanoseconds', 'num_microseconds', 'as_secs'))
    def num(self, m, st, c):
        n = c.f['path'].split('::')[-1]
        v = self.arg(m, st, c, 0)
        u = UNITS['seconds' if n == 'as_secs' else n[4:]]
        cc, mm = lin_parts(v)
        if cc % u == 0 and all(k % u == 0 for k in mm.values()):
            r = mk_lin(cc // u, {x: k // u for x, k in mm.items()})
        else:
            # rounded towards zero: less than one unit is lost
            r = App('truncdiv', v, Int(u))
            rest = lin_add(v, lin_scale(r, u), -1)
            st = st.copy()
            for s in (1, -1):
                st.assume_le(lin_add(lin_scale(rest, s), Int(u - 1), -1))
        if n not in ('num_nanoseconds', 'num_microseconds'):
            return ret(st, r)
        # these do not fit an i64 for every duration
        out = []
        for s, ok in m.fork_bool(st, dur_fits(v, u)):
            out.append(Out('ret', s, Some(r) if ok else NONE))
        return out

    @model(DTP + '::timestamp', DTP + '::timestamp_millis', DTP + '::timestamp_nanos', DTP + '::timestamp_nanos_opt', DTP + '::timestamp_micros')
    def timestamp(self, m, st, c):
        n = c.f['path'].split('::')[-1]
        u = {'timestamp': NS, 'timestamp_millis': 10**6, 'timestamp_nanos': 1, 'timestamp_nanos_opt': 1, 'timestamp_micros': 1000}[n]
        v = self.arg(m, st, c, 0)
        if u > 1:
            st = st.copy()
            return ret(st, self.whole(st, v, u))
        r = v
        out = []
        for s, ok in m.fork_bool(st, dur_fits(v, 1)):
            if n == 'timestamp_nanos_opt':
                out.append(Out('ret', s, Some(r) if ok else NONE))
            else:
                out.append(Out('ret', s, r) if ok else Out('panic', s, ('instant out of range for nanoseconds', n, c.span)))
        return out

    @staticmethod
    def whole(st, v, u):
        """v in whole units of u nanoseconds, rounded down, tied to v by how rounding works"""
        c, mm = lin_parts(v)
        if c % u == 0 and all(k % u == 0 for k in mm.values()):
            return mk_lin(c // u, {x: k // u for x, k in mm.items()})
        q = App('floordiv', v, Int(u))
        rest = lin_add(v, lin_scale(q, u), -1)
        st.assume_le(lin_scale(rest, -1))
        st.assume_le(rest, u - 1)
        return q

    @model(DTP + '::timestamp_subsec_nanos', DTP + '::timestamp_subsec_micros', DTP + '::timestamp_subsec_millis', 'chrono::traits::Timelike::nanosecond')
    def subsec(self, m, st, c):
        n = c.f['path'].split('::')[-1]
        ty = self.argty(c, 0)
        if ty is None or ty.get('p') not in (DTP,) + NAIVE[1:]:
            return None
        u = {'timestamp_subsec_micros': 10**3, 'timestamp_subsec_millis': 10**6}.get(n, 1)
        v = self.arg(m, st, c, 0)
        st = st.copy()
        r = lin_add(v, lin_scale(self.whole(st, v, NS), NS), -1)
        return ret(st, r if u == 1 else self.whole(st, r, u))

    @model(DTP + '::date_naive', DTP + '::time', NAIVE[2] + '::date', NAIVE[2] + '::time')
    def civil(self, m, st, c):
        v = self.arg(m, st, c, 0)
        st = st.copy()
        d = self.whole(st, v, UNITS['days'])
        return ret(st, d if 'date' in c.f['path'].split('::')[-1] else lin_add(v, lin_scale(d, UNITS['days']), -1))

    @model(DTP + '::with_timezone', 'chrono::offset::TimeZone::with_timezone', DTP + '::to_utc', DTP + '::naive_utc', NAIVE[2] + '::and_utc')
    def with_tz(self, m, st, c):
        return ret(st, self.arg(m, st, c, 0))

    @model(DTP + '::checked_add_signed', DTP + '::checked_sub_signed')
    def checked_add(self, m, st, c):
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        st = st.copy()
        self.note_dt(st, a)
        r = lin_add(a, b, 1 if 'add' in c.f['path'] else -1)
        return [Out('ret', s, NONE if o else Some(r)) for s, o in m.fork_bool(st, dt_overflow(m, st, r))]

    @model(*each(DUR, 'checked_add', 'checked_sub'))
    def dur_checked(self, m, st, c):
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        r = lin_add(a, b, 1 if 'add' in c.f['path'] else -1)
        return [Out('ret', s, Some(r) if o else NONE) for s, o in m.fork_bool(st, dur_ok(r))]

    @model(DTP + '::signed_duration_since')
    def since(self, m, st, c):
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        st = st.copy()
        self.note_dt(st, a)
        self.note_dt(st, b)
        return ret(st, lin_add(a, b, -1))

    def dt_arith(self, m, st, c, op):
        ty = self.selfty(c)
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1) if len(c.args) > 1 else None
        st = st.copy()
        if ty.get('p') == DTP:
            self.note_dt(st, a)
            bt = self.argty(c, 1)
            if op == 'sub' and bt is not None and bt.get('p') == DTP:
                self.note_dt(st, b)
                return ret(st, lin_add(a, b, -1))
            if op not in ('add', 'sub') or bt is None or not self.isdur(bt):
                return None
            r = lin_add(a, b, 1 if op == 'add' else -1)
            return [Out('panic', s, ('DateTime overflow', op, c.span)) if o else Out('ret', s, r) for s, o in m.fork_bool(st, dt_overflow(m, st, r))]
        if op == 'neg':
            return ret(st, lin_scale(a, -1))
        if op == 'mul':
            if is_int(b):
                r = lin_scale(a, b.a[1])
            elif is_int(a):
                m.note_range(st, b, self.argty(c, 1))
                r = lin_scale(b, a.a[1])
            else:
                return None
        else:
            r = lin_add(a, b, 1 if op == 'add' else -1)
        return [Out('ret', s, r) if ok else Out('panic', s, ('duration overflow', op, c.span)) for s, ok in m.fork_bool(st, dur_ok(r))]

    def dt_addassign(self, m, st, c):
        a, b = self.arg(m, st, c, 0), self.arg(m, st, c, 1)
        self.note_dt(st, a)
        r = lin_add(a, b, -1 if 'sub_assign' in c.f['path'] else 1)
        out = []
        for s, o in m.fork_bool(st, dt_overflow(m, st, r)):
            if o:
                out.append(Out('panic', s, ('DateTime overflow', 'add_assign', c.span)))
            else:
                m.assign_mref(s, c.args[0], r)
                out.append(Out('ret', s, UNIT))
        return out
