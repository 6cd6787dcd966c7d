"""C28 (no panic) and C29 (no state, no input or output, time only where expiry is decided)."""
from lib import *
from ir import walk


# ------------------------------------------------------------------ C28
def entry_points(ir):
    """functions a user of the crate can reach: public ones, methods of implemented traits of public types, and the
    methods serde calls on the helper types of derived code"""
    for r in ir.roots:
        if r['reachable'] or r.get('impl_trait', '').startswith('serde::') or (r['derived'] and 'impl_trait' in r):
            yield r


def c28(ck):
    n = pub = 0
    for r in entry_points(ck.ir):
        b = ck.ir.bodies[r['id']]
        outs = ck.run_root(r, [P('a%d' % i) for i in range(b['argc'])])
        n += 1
        pub += 'impl_trait' not in r
        bad = False
        seen = set()
        for o in outs:
            if o.kind != 'panic':
                continue
            msg = o.val if isinstance(o.val, tuple) else (str(o.val), '', '')
            if msg[0] == FOREVER:
                continue
            bad = True
            ops = {norm_name(x) for t in fact_terms(o.st) for x in opaque_in(t)} & {str(x) for x in o.st.unk}
            phi = any(x.op == 'phi' for f in o.st.facts() for x in subterms(f[1]))
            k = (msg[0], msg[1], bool(ops or phi))
            if k in seen:
                continue
            seen.add(k)
            d = 'reaches a panic (%s in %s at %s) when: %s' % (msg[0], msg[1], msg[2] if len(msg) > 2 else '?', show_facts(o.st))
            if ops:
                ck.undecided('panic', r['path'], d + ' ;; the path is decided by unmodelled functions %s' % sorted(ops)[:3])
            elif phi:
                ck.undecided('panic', r['path'], d + ' ;; the path depends on a loop-carried value the analysis does not bound')
            else:
                ck.violate('panic', r['path'], '%s %s' % (msg[0], msg[1]), d)
        if not bad:
            ck.ok('panic', r['path'], '%d exits, none of them a panic' % len(outs))
    ck.floor(n, 400, 'entry points')
    ck.floor(pub, 25, 'public functions')


def norm_name(x):
    from mbase import norm
    return norm(x.a[0].split('|')[0]) if x.op == 'app' else str(x)


# ------------------------------------------------------------------ C29
STATEFUL = ('core::sync::atomic::', 'std::sync::atomic::', 'std::sync::poison::', 'std::sync::mutex', 'std::sync::rwlock', 'std::sync::mpsc', 'std::sync::mpmc',
            'std::sync::barrier', 'std::sync::condvar', 'std::sync::nonpoison', 'std::sync::Mutex', 'std::sync::RwLock')
FORBIDDEN = {
    'files': ('std::fs::', 'std::path::Path::exists', 'std::path::Path::read', 'std::path::Path::is_file', 'std::path::Path::metadata'),
    'network': ('std::net::tcp', 'std::net::udp', 'std::net::socket_addr::ToSocketAddrs', 'std::os::unix::net', 'ssi_dids::did_resolve'),
    'environment': ('std::env::',),
    'processes': ('std::process::',),
    'threads': ('std::thread::functions::', 'std::thread::spawn', 'std::thread::sleep', 'std::thread::current', 'std::thread::scoped', 'std::thread::builder',
                'std::thread::park', 'std::thread::id', 'std::thread::Builder', 'std::thread::yield_now'),
    'input or output': ('std::io::stdio::', 'std::io::stdin', 'std::io::stdout', 'std::io::stderr', 'std::io::_print', 'std::io::_eprint'),
    'clock other than the current UTC time': ('std::time::Instant', 'chrono::offset::local::', 'chrono::Local', 'time::precise_time', 'std::time::SystemTime::elapsed'),
    'randomness': ('rand::', 'rand_core::', 'getrandom::', 'fastrand::', 'uuid::', 'std::hash::random::RandomState::new', 'std::collections::hash::map::RandomState::new',
                   'std::hash::random::RandomState::default', 'std::random'),
    'input or output ': ('log::', 'tracing::', 'tokio::', 'reqwest::', 'hyper::', 'ureq::', 'mio::', 'socket2::', 'libc::', 'nix::', 'async_std::'),
}
PURE_CRATES = {'core', 'alloc', 'std', 'serde', 'serde_core', 'serde_json', 'base64', 'chrono', 'time', 'ssi_dids', 'ssi_jwk', 'ssi_vc', 'ssi_core', 'ssi', 'urlencoding',
               'thiserror', 'thiserror_core', 'serde_path_to_error', 'strum', 'multibase', 'percent_encoding', 'url', 'serde_urlencoded', 'iri_string', 'itoa', 'hashbrown', 'memchr', 'base64ct'}
HASHITER = ('collections::hash::', 'hash_map::', 'hash_set::', 'std::collections::HashMap', 'std::collections::HashSet')
ORDERED = ('Vec<', 'String', 'VecDeque<', 'LinkedList<', 'Box<[')


def clean(p):
    return p.lstrip('<&').replace('mut ', '')


def local_bodies(ir):
    for i, b in enumerate(ir.bodies):
        if b is not None and b['crate'] == ir.crate:
            yield i, b


def calls(b):
    for blk in b['blocks']:
        if blk and blk['t'][0] == 'call' and isinstance(blk['t'][1], dict):
            yield blk['t']


def fn_values(b):
    """functions mentioned as values (passed to combinators)"""
    for blk in b['blocks']:
        if not blk:
            continue
        for x in walk([blk['s'], blk['t']]):
            if x and x[0] == 'fn' and len(x) > 1 and isinstance(x[1], dict):
                yield x[1]


def c29_state(ck):
    ir = ck.ir
    lazies, once = [], False
    for s in ir.statics:
        ty = ir.tys(s['ty'])
        w = s['path']
        if s['mutable']:
            ck.violate('static-state', w, 'mutable static', 'static mut of type %s keeps state between calls (%s)' % (ty, s['span']))
        elif s['freeze'] and not s['thread_local']:
            ck.ok('static-state', w, 'immutable static of type %s' % ty)
        elif 'LazyLock<' in ty or 'once_cell::sync::Lazy<' in ty or 'lazy_static' in ty:
            lazies.append(w)
            ck.ok('static-state', w, 'initialised once, without arguments (%s)' % ty)
        elif 'OnceLock<' in ty or 'OnceCell<' in ty or 'OnceBox' in ty:
            lazies.append(w)
            once = True
            ck.ok('static-state', w, 'cell that is written once (%s), its writers are judged below' % ty)
        else:
            ck.violate('static-state', w, 'interior mutability', 'static of type %s can keep state between calls (%s)' % (ty, s['span']))
    # writers of write-once cells: the stored value must not depend on the arguments of a call
    for i, b in local_bodies(ir) if once else ():
        for t in calls(b):
            f = t[1]
            p = clean(f.get('rpath') or f.get('path') or '')
            if ('OnceLock' in p or 'OnceCell' in p) and f.get('name') in ('set', 'try_insert', 'get_or_init', 'get_or_try_init', 'get_mut_or_init', 'insert', 'replace', 'take', 'get_mut'):
                n = f['name']
                if n.startswith('get_or') or n == 'get_mut_or_init':
                    aty = t[5][1] if isinstance(t[5], list) and len(t[5]) > 1 else None
                    ups = captures(ir, b, t)
                    clock = reads_clock(ir, initialiser(ir, f))
                    if clock:
                        ck.violate('static-state', b['path'], 'time kept', 'the time of the first call is kept in a write-once cell (%s)' % t[-1])
                    elif clock is False and ups is None:
                        ck.ok('static-state', b['path'], 'write-once cell initialised by a function without arguments')
                    elif ups is None:
                        ck.undecided('static-state', b['path'], 'initialiser of a write-once cell not understood (%s)' % t[-1])
                    elif ups:
                        ck.violate('static-state', b['path'], 'argument kept', 'the value kept in a write-once cell is computed from the variables of the first call (%s)' % t[-1])
                    else:
                        ck.ok('static-state', b['path'], 'write-once cell with an initialiser without captured variables')
                else:
                    ck.violate('static-state', b['path'], 'written', 'a call writes a cell that later calls read (%s)' % t[-1])
    # the current time must not be kept
    if lazies:
        for i, b in local_bodies(ir):
            if any(b['path'].startswith(w + '::') for w in lazies) or (b['kind'] == 'closure' and any(w in b['path'] for w in lazies)):
                for t in calls(b):
                    if (t[1].get('name') == 'now'):
                        ck.violate('static-state', b['path'], 'time kept', 'the time of the first call is kept in a static (%s)' % t[-1])
    ck.ok('static-state', 'crate', '%d statics' % len(ir.statics))


def initialiser(ir, f):
    """the function or closure that fills a cell: ('fndef', path) or ('closure', body id), None when unknown"""
    for ti in f.get('targs', []):
        ty = ir.ty(ti)
        if ty['k'] == 'fndef':
            return ty['p']
        if ty['k'] == 'closure':
            return ty.get('p') or ty.get('s')
    return None


def reads_clock(ir, p):
    """the function with path p reads the clock, itself or through functions of the crate; None when it is not known"""
    if p is None:
        return None
    if p.split('::')[-1] == 'now':
        return True
    byp = {}
    for i, b in local_bodies(ir):
        byp.setdefault(clean(b['path']), i)
    if clean(p) not in byp:
        return False if p.split('::')[0] in ('core', 'alloc', 'std') and p.split('::')[-1] in ('new', 'default') else None
    seen, work = set(), [byp[clean(p)]]
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        b = ir.bodies[i]
        for f in [t[1] for t in calls(b)] + list(fn_values(b)):
            if f.get('name') in ('now', 'elapsed'):
                return True
            if isinstance(f.get('body'), int) and ir.bodies[f['body']] is not None and ir.bodies[f['body']]['crate'] == ir.crate:
                work.append(f['body'])
        for j, c in local_bodies(ir):
            if c['kind'] == 'closure' and c['path'].startswith(b['path'] + '::{closure'):
                work.append(j)
    return False


def captures(ir, b, t):
    """number of captured variables of the closure passed as second operand, None when it is not a closure literal"""
    f = t[1]
    for ti in f.get('targs', []):
        ty = ir.ty(ti)
        if ty['k'] == 'closure':
            return len(ty.get('a', [])) if 'ups' not in ty else len(ty['ups'])
    return None


def c29_calls(ck):
    ir = ck.ir
    nb = nc = 0
    foreign = {}
    for i, b in local_bodies(ir):
        nb += 1
        fs = [(t[1], t[-1]) for t in calls(b)] + [(f, b['span']) for f in fn_values(b)]
        hashcollect, sorts = [], False
        for f, span in fs:
            nc += 1
            bad = False
            for p in {clean(f.get('path') or ''), clean(f.get('rpath') or '')}:
                for what, pre in FORBIDDEN.items():
                    if any(p.startswith(x) for x in pre):
                        ck.violate('effect', b['path'], '%s %s' % (what.strip(), p), '%s performs %s by calling %s (%s)' % (b['path'], what.strip(), p, span))
                        bad = True
            cr = f.get('rcrate') or f.get('crate')
            if cr and cr != ir.crate and cr not in PURE_CRATES and not bad:
                foreign.setdefault(cr, set()).add((f.get('rpath') or f.get('path'), b['path']))
            if f.get('name', '').startswith('sort'):
                sorts = True
        # iteration order of hash tables is random per table
        for t in calls(b):
            f = t[1]
            if f.get('name') not in ('collect', 'from_iter', 'extend', 'next', 'last', 'nth', 'find', 'find_map', 'position', 'reduce', 'fold', 'take', 'skip', 'zip', 'enumerate', 'join', 'for_each'):
                continue
            tys = [ir.tys(a) for a in f.get('targs', [])] + ([ir.tys(f['self'])] if 'self' in f else [])
            froms = tys
            if f['name'] in ('extend', 'from_iter') and 'self' in f:
                # what is filled is the receiving type; what it is filled from is among the others
                dst = ir.tys(f['self'])
                froms = [x for x in tys if x != dst]
            src = [x for x in froms if any(h in x for h in HASHITER) and ('Iter' in x or 'Keys' in x or 'Values' in x or 'Drain' in x or f['name'] in ('from_iter', 'extend'))]
            if not src:
                continue
            outs = [x for x in tys if not any(h in x for h in HASHITER)]
            if f['name'] in ('extend', 'from_iter') and 'self' in f:
                outs = [dst] if not any(h in dst for h in HASHITER) else []
            if f['name'] in ('collect', 'from_iter', 'join', 'extend') and any(o in x.split('::')[-1] + ' ' + x for x in outs for o in ORDERED):
                hashcollect.append((t[-1], src[0]))
            elif f['name'] in ('last', 'nth', 'find', 'find_map', 'position', 'reduce', 'fold', 'take', 'skip', 'zip', 'enumerate'):
                ck.undecided('hash-order', b['path'], '%s over %s (%s) may depend on the order of a hash table' % (f['name'], src[0][:120], t[-1]))
        for span, src in hashcollect:
            if sorts:
                ck.undecided('hash-order', b['path'], 'a sequence is built from %s (%s) and something is sorted in the same function' % (src[:120], span))
            else:
                ck.violate('hash-order', b['path'], 'collect', 'a sequence is built in the random order of a hash table: %s (%s)' % (src[:160], span))
    for cr, xs in sorted(foreign.items()):
        ck.undecided('effect', 'crate ' + cr, 'functions of %s are called and not known to be free of effects: %s' % (cr, sorted(map(str, xs))[:3]))
    ck.ok('effect', 'crate', '%d calls and function values in %d functions of the crate' % (nc, nb))
    ck.floor(nb, 300, 'functions of the crate')
    ck.floor(nc, 800, 'calls')


TIMEFIELDS = ('c_nonce_created_at', 'c_nonce_expires_in', 'not_before', 'expires_at')


def isnow(t):
    return t.op == 'app' and t.a[0] == 'now'


def hasnow(t):
    return any(isnow(x) for x in subterms(t))


def leaves(t):
    """maximal non-arithmetic subterms that do not contain the current time"""
    if isnow(t) or is_int(t) or t.op == 'c':
        return
    if not hasnow(t):
        yield t
        return
    for x in t.a:
        if isinstance(x, T):
            yield from leaves(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield from leaves(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield from leaves(z)


def timefield(t):
    if t.op == 'fld':
        b, v, f = t.a
        if f in TIMEFIELDS:
            return True
        if v == 'Some':
            return timefield(b)
    if t.op == 'lin':
        return all(timefield(x) for x, _ in t.a[1])
    if t.op == 'app' and not is_opaque(t):
        return all(timefield(x) for x in t.a if isinstance(x, T) and not is_int(x) and not isnow(x))
    return False


def ret_times(v):
    """the positions in a successful result that may hold the time: whole timestamps"""
    if isnow(v):
        return True, None
    if not hasnow(v):
        return True, None
    if v.op == 'tup':
        for x in v.a:
            ok, w = ret_times(x)
            if not ok:
                return ok, w
        return True, None
    if v.op == 'adt' and v.a[0].split('::')[-1] in ('Option', 'Result'):
        for f, x in v.a[2]:
            ok, w = ret_times(x)
            if not ok:
                return ok, w
        return True, None
    return False, v


def c29_time(ck):
    uses = 0
    for r in ck.ir.roots:
        if not (r['reachable'] or r.get('impl_trait', '').startswith('serde::')):
            continue
        b = ck.ir.bodies[r['id']]
        if r['derived']:
            continue
        outs = ck.run_root(r, [P('a%d' % i) for i in range(b['argc'])])
        bad = False
        used = False
        for o in outs:
            for f in o.st.facts():
                t = f[1]
                if not hasnow(t) or isnow(t) and f[0] in ('le', 'ge'):
                    continue
                used = True
                for x in leaves(t):
                    if timefield(x):
                        continue
                    bad = True
                    d = 'the current time takes part in a decision about %s: %s' % (x, show_facts(o.st)[:600])
                    if opaque_in(t) or o.st.unk:
                        ck.undecided('time', r['path'], d)
                    else:
                        ck.violate('time', r['path'], 'decision', d)
            if isnow_fact_only(o.st):
                bad = True
                ck.violate('time', r['path'], 'calendar', 'a decision compares the current time with a constant: ' + show_facts(o.st)[:600])
            v = o.val
            if o.kind != 'ret' or not isinstance(v, T) or not hasnow(v):
                continue
            used = True
            if o.st.variant(v) == 'Err':
                continue
            ok, w = ret_times(v)
            if not ok:
                bad = True
                d = 'the current time reaches the result other than as a reported timestamp: %s' % str(w)[:500]
                if opaque_in(w):
                    ck.undecided('time', r['path'], d)
                else:
                    ck.violate('time', r['path'], 'result', d)
        uses += used
        if not bad and used:
            ck.ok('time', r['path'], 'the current time is compared with %s only, and reported as a timestamp' % ', '.join(TIMEFIELDS))
    ck.floor(uses, 1, 'functions that use the current time')


NOWLO, NOWHI = 0, 253402300799 * 10 ** 9


def isnow_fact_only(st):
    for k, t, v in st.facts():
        if isnow(t) and (k == 'ge' and v > NOWLO or k == 'le' and v < NOWHI):
            return True
    return False


def c29(ck):
    c29_state(ck)
    c29_calls(ck)
    c29_time(ck)


RULES = {'C28': c28, 'C29': c29}
