"""Wire-name tables: what (de)serialisers of the crate write and read, recovered from the paths of their MIR.

Writing: every path of `Serialize::serialize` leaves a log of serializer calls; the log of a succeeding path is a
list of (member name, value term). Reading: `Deserialize::deserialize` names its visitor; the loop of that
visitor's `visit_map` says which key constant feeds which local, and the value it builds says which local feeds
which field; the key visitor's `visit_str` says which strings are which key constant."""
import re
from lib import *


class Unclear(Exception):
    """the implementation has a shape this analysis does not read"""


def adt_of(ir, i):
    return ir.types[ir.peel(i)].get('p')


def impl_roots(ck, name, trait, adt):
    return [r for r in ck.ir.roots if r['name'] == name and r.get('impl_trait', '').split('<')[0].endswith(trait)
            and 'impl_self' in r and ck.ir.types[r['impl_self']].get('p') == adt]


def impl_root(ck, name, trait, adt):
    c = impl_roots(ck, name, trait, adt)
    if len(c) != 1:
        raise Unclear('%d implementations of %s for %s' % (len(c), trait, adt))
    return c[0]


def run_flat(ck, r, args):
    old = getattr(ck.m, 'opts', None)
    ck.m.opts = {'flat_loops': True}
    try:
        return ck.run_root(r, args)
    finally:
        ck.m.opts = old or {}


def last2(p):
    return '::'.join(p.split('::')[-2:])


# ------------------------------------------------------------------ writing
def shape(st, log):
    """what a succeeding path wrote"""
    ent, flats, obj, under = [], [], False, None
    for path, selfname, args, term in log:
        m = re.match(r'chrono::(?:[a-z_]+::)*serde::ts_(seconds|milliseconds|microseconds)(_option)?::serialize$', path)
        if m and not obj and not ent:
            # less than the instant: what is left of it in whole units
            return ('deleg', App('whole_' + m.group(1), args[0]), selfname)
        if not path.startswith('serde::ser::') and not path.startswith('serde::Ser'):
            continue
        n = path.split('::')[-1]
        k = last2(path)
        if n in ('serialize_struct', 'serialize_map', 'serialize_struct_variant'):
            if n == 'serialize_struct_variant':
                if not is_str(args[3]):
                    return ('?', n)
                under = args[3].a[1]
            obj = True
        elif n in ('serialize_field', 'serialize_entry'):
            if k.startswith('SerializeTuple') or k.startswith('SerializeSeq'):
                return ('?', k)
            if not is_str(args[1]):
                return ('?', 'member name %s' % args[1])
            ent.append((args[1].a[1], args[2]))
        elif n in ('skip_field', 'end'):
            pass
        elif n == 'serialize' and args[1].op == 'adt' and 'FlatMapSerializer' in args[1].a[0]:
            flats.append(args[0])
        elif n == 'serialize' and not obj:
            if is_str(args[0]):
                return ('str', args[0])
            return ('deleg', args[0], selfname)
        elif n in ('serialize_newtype_struct',):
            return ('deleg', args[2], selfname)
        elif n == 'serialize_some':
            return ('deleg', args[1], selfname)
        elif n == 'serialize_unit_variant':
            return ('str', args[3])
        elif n == 'serialize_newtype_variant':
            if not is_str(args[3]):
                return ('?', n)
            return ('obj', [(args[3].a[1], args[4])], [])
        elif n in ('serialize_str', 'collect_str'):
            return ('str', args[1])
        elif n in ('serialize_unit', 'serialize_none', 'serialize_unit_struct'):
            return ('null',)
        else:
            return ('?', path)
    if under is not None:
        return ('obj', [(under, T('tup', *[x for _, x in ent]))], []) if not flats else ('?', 'parts merged under ' + under)
    if obj:
        return ('obj', ent, flats)
    return ('?', 'nothing written')


def ser_shapes(ck, adt, self_=None):
    """(state, shape) of the succeeding paths of <adt as Serialize>::serialize"""
    r = impl_root(ck, 'serialize', 'Serialize', adt)
    res = []
    for o in ck.run_root(r, [self_ or P('self'), P('ser')]):
        if o.kind != 'ret' or o.st.variant(o.val) == 'Err':
            continue
        s = shape(o.st, o.st.log)
        if o.st.unk:
            s = ('?', 'unmodelled: %s' % sorted(map(str, o.st.unk))[:3])
        res.append((o.st, s))
    return res


# ------------------------------------------------------------------ reading
def calls(ck, bid):
    for b in ck.ir.bodies[bid]['blocks']:
        if b and b['t'][0] == 'call' and isinstance(b['t'][1], dict):
            yield b['t'][1]


def targ_adt(ck, bid, fn, pred=lambda p: p):
    out = set()
    for f in calls(ck, bid):
        if f.get('path', '').endswith(fn):
            for x in f.get('targs', []):
                p = adt_of(ck.ir, x)
                if p and pred(p):
                    out.add(p)
    if len(out) != 1:
        raise Unclear('%s: %d candidate types' % (fn, len(out)))
    return out.pop()


def key_names(ck, field_adt):
    """key constant -> strings, for a generated key type"""
    d = impl_root(ck, 'deserialize', 'Deserialize', field_adt)
    vis = None
    for fn in ('deserialize_identifier', 'deserialize_str', 'deserialize_string'):
        try:
            vis = targ_adt(ck, d['id'], fn)
            break
        except Unclear:
            continue
    if vis is None:
        raise Unclear('key visitor of %s' % field_adt)
    r = impl_root(ck, 'visit_str', 'Visitor', vis)
    s = P('text')
    names, other = {}, None
    oks, errs = ck.split(ck.run_root(r, [P('vis'), s]))
    for o, v in oks:
        if v.op != 'adt':
            raise Unclear('key %s' % v)
        st = o.st
        eqs = [t for k, t, b in st.facts() if k == 'atom' and b and t.op == 'eq']
        consts = [x.a[1] for t in eqs for x in t.a if is_str(x)]
        if consts:
            for c in consts:
                if c in names and names[c] != v.a[1]:
                    raise Unclear('two keys for %s' % c)
                names[c] = v.a[1]
        else:
            if any(k == 'atom' and b for k, t, b in st.facts()):
                raise Unclear('key chosen by %s' % show_facts(st))
            other = v.a[1]
    return names, other


def visit_map_table(ck, vis_adt, result_adt):
    """{field: set of names}, {field: default}, flat fields, variant built"""
    r = impl_root(ck, 'visit_map', 'Visitor', vis_adt)
    kt = targ_adt(ck, r['id'], 'MapAccess::next_key')
    names, other = key_names(ck, kt)
    oks, errs = ck.split(run_flat(ck, r, [P('vis'), P('map')]))
    fields, defaults, flats, variant, changed = {}, {}, set(), None, {}
    if not oks:
        raise Unclear('no succeeding path')
    for o, v in oks:
        if v.op != 'adt':
            raise Unclear('builds %s' % str(v)[:100])
        variant = v.a[1]
        cells, changed_cells = {}, {}
        for fa in o.st.foralls:
            for e in fa.edges:
                key = None
                for f in e.facts:
                    if f[0] == 'var' and f[1].op == 'fld' and f[1].a[1] == 'Some' and 'next_key' in str(f[1])[:200]:
                        key = f[2]
                for c, t in e.upd.items():
                    if any('next_value' in x.a[0] for x in subterms(t) if x.op == 'app') and \
                            not (t.op == 'app' and t.a[0].startswith('post')):
                        cells.setdefault((fa.lid, c), set()).add(key)
                        why = stored_changed(ck, t)
                        if why is not None:
                            changed_cells[(fa.lid, c)] = why
        for f, t in v.a[2]:
            if t.op == 'app' and t.a[0].split('|')[0].endswith('deserialize') and any(x.op == 'adt' and 'FlatMapDeserializer' in x.a[0] for x in subterms(t)) or \
                    any(x.op == 'adt' and 'FlatMapDeserializer' in x.a[0] for x in subterms(t)):
                flats.add(f)
                continue
            ph = [x for x in subterms(t) if x.op == 'phi']
            if ph:
                ks = set()
                for x in ph:
                    ks |= cells.get((x.a[0], x.a[1]), set())
                    if (x.a[0], x.a[1]) in changed_cells:
                        changed[f] = changed_cells[(x.a[0], x.a[1])]
                if not (t.op == 'phi' or t.op == 'fld' and t.a[1:] == ('Some', '0') and t.a[0].op == 'phi'):
                    changed[f] = t
                fields.setdefault(f, set()).update(n for n, k in names.items() if k in ks)
            elif any(x.op == 'app' and 'missing_field' in x.a[0] for x in subterms(t)):
                defaults.setdefault(f, set()).add('missing_field')
            else:
                defaults.setdefault(f, set()).add(t)
    return dict(fields=fields, defaults=defaults, flats=flats, variant=variant, names=names, other=other, changed=changed)


def stored_changed(ck, t):
    """None when the member's value is stored as it was read, else the term stored"""
    if t.op == 'adt' and t.a[1] == 'Some':
        v = t.a[2][0][1]
        if v.op == 'fld' and v.a[1:] == ('', 'value'):
            w = v.a[0]
            if w.op == 'fld' and w.a[1:] == ('Ok', '0') and w.a[0].op == 'app' and '__DeserializeWith' in w.a[0].a[0]:
                return ('with', w.a[0].a[0].split('|')[-1])
        if v.op == 'fld' and v.a[1:] == ('Ok', '0') and v.a[0].op == 'app' and 'next_value' in v.a[0].a[0]:
            return None
    return t


def visitor_in(ck, t):
    """the visitor value handed to a deserializer"""
    if t.op == 'adt':
        return t.a[0]
    raise Unclear('visitor %s' % str(t)[:80])


def de_struct(ck, adt):
    r = impl_root(ck, 'deserialize', 'Deserialize', adt)
    outs = ck.run_root(r, [P('de')])
    vis = set()
    for o in outs:
        for path, selfname, args, term in o.st.log:
            n = path.split('::')[-1]
            if n in ('deserialize_struct', 'deserialize_map'):
                vis.add(visitor_in(ck, args[-1]))
            elif n.startswith('deserialize_'):
                raise Unclear(n)
    if len(vis) != 1:
        raise Unclear('%d visitors' % len(vis))
    return visit_map_table(ck, vis.pop(), adt)


def de_tagged(ck, adt):
    """internally tagged enum: tag member, {tag string: (variant, table or None)}"""
    r = impl_root(ck, 'deserialize', 'Deserialize', adt)
    kt = targ_adt(ck, r['id'], 'TaggedContentVisitor::<\'de, T>::new', lambda p: True) if False else None
    for f in calls(ck, r['id']):
        if 'TaggedContentVisitor' in f.get('path', '') and f['path'].endswith('::new'):
            for x in f.get('targs', []):
                p = adt_of(ck.ir, x)
                if p:
                    kt = p
    if kt is None:
        raise Unclear('not an internally tagged enum')
    names, other = key_names(ck, kt)
    tag, res, vis = None, {}, {}
    for o in ck.run_root(r, [P('de')]):
        if o.kind != 'ret' or o.st.variant(o.val) == 'Err':
            continue
        key = None
        for f in o.st.facts():
            if f[0] == 'var' and f[1].op == 'fld' and f[1].a[2] in ('tag', '0') and str(f[2]).startswith('__field'):
                key = f[2]
        for path, selfname, args, term in o.st.log:
            if 'TaggedContentVisitor' in path and path.endswith('::new') and is_str(args[0]):
                tag = args[0].a[1]
        if key is None:
            raise Unclear('dispatch on the tag')
        v = o.val
        if v.op == 'adt' and v.a[1] == 'Ok' and v.a[2][0][1].op == 'adt':
            res[key] = (v.a[2][0][1].a[1], None)
        else:
            # deserialize_any(content, visitor)
            w = [x for x in subterms(v) if x.op == 'adt' and '__Visitor' in x.a[0]]
            if len(w) != 1:
                raise Unclear('content visitor of %s' % key)
            t = visit_map_table(ck, w[0].a[0], adt)
            res[key] = (t['variant'], t)
    return tag, {s: res[k] for s, k in names.items() if k in res}, {s: k for s, k in names.items() if k not in res}


def read_as_text(ck, r):
    """a reader that reads a string and maps it: {string: (variant, None)}; None when it reads anything else"""
    res = {}
    for o in ck.run_root(r, [P('de')]):
        log = [e for e in o.st.log if e[0].split('::')[-1].startswith('deserialize')]
        if len(log) != 1 or log[0][0].split('::')[-1] != 'deserialize' or 'String' not in log[0][1] or log[0][2] != (P('de'),):
            return None
        if o.kind != 'ret':
            continue
        t = fld(log[0][3], 'Ok', '0')
        v = o.val
        if v.op != 'adt' or v.a[1] == 'Err':
            if v.op != 'adt':
                raise Unclear('result %s' % str(v)[:80])
            continue
        w = v.a[2][0][1]
        cs = [x.a[1] for k, f, b in o.st.facts() if k == 'atom' and b and f.op == 'eq' and t in f.a for x in f.a if is_str(x)]
        if w.op != 'adt' or len(cs) != 1 or any(k == 'atom' and b and f.op != 'eq' for k, f, b in o.st.facts()):
            raise Unclear('text mapped by %s' % show_facts(o.st, 200))
        res[cs[0]] = (w.a[1], w.a[2][0][1] if w.a[2] else None)
    return res or None


def de_enum(ck, adt):
    """externally tagged or fieldless enum: {string: (variant, payload term or None)}"""
    r = impl_root(ck, 'deserialize', 'Deserialize', adt)
    vis = set()
    text = read_as_text(ck, r)
    if text is not None:
        return text
    for o in ck.run_root(r, [P('de')]):
        for path, selfname, args, term in o.st.log:
            if path.split('::')[-1] == 'deserialize_enum':
                vis.add(visitor_in(ck, args[-1]))
            elif path.split('::')[-1].startswith('deserialize'):
                raise Unclear(path)
    if len(vis) != 1:
        raise Unclear('%d visitors' % len(vis))
    r = impl_root(ck, 'visit_enum', 'Visitor', vis.pop())
    kt = targ_adt(ck, r['id'], 'EnumAccess::variant')
    names, other = key_names(ck, kt)
    res = {}
    oks, _ = ck.split(ck.run_root(r, [P('vis'), P('data')]))
    for o, v in oks:
        key = [f[2] for f in o.st.facts() if f[0] == 'var' and str(f[2]).startswith('__field')]
        if v.op != 'adt' or len(key) > 1:
            raise Unclear('variant %s' % str(v)[:80])
        if not key:
            # a single key: nothing to branch on
            u = set(names.values())
            if len(u) != 1:
                raise Unclear('dispatch')
            key = list(u)
        res[key[0]] = (v.a[1], v.a[2][0][1] if v.a[2] else None)
    if other is not None:
        raise Unclear('other strings accepted as %s' % other)
    return {s: res[k] for s, k in names.items() if k in res}


FORMATS = {'JwtVcJson': 'jwt_vc_json', 'JwtVcJsonLd': 'jwt_vc_json-ld', 'LdpVc': 'ldp_vc', 'MsoMdoc': 'mso_mdoc'}


def format_tags(ck):
    return dict(FORMATS)
