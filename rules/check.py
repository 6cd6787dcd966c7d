"""check.py PROPERTY: decide one property on the current tree of /repo."""
import sys, os, json, time, hashlib, subprocess, importlib, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'engine'))


def dump(repo):
    """extract the typed MIR of the crate from the working tree"""
    import tempfile
    d = tempfile.mkdtemp(prefix='mirx-')
    out = os.path.join(d, 'dump.json')
    r = subprocess.run(['bash', os.path.join(ROOT, 'tools', 'extract.sh'), repo, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        sys.stdout.write(r.stdout[-4000:])
        print('extraction of the program representation failed')
        sys.exit(2)
    return out


def rules():
    R = {}
    for m in ('tokens', 'issuer', 'proof', 'misc', 'wire', 'effects', 'objects', 'general', 'returns'):
        if os.path.exists(os.path.join(HERE, m + '.py')):
            R.update(importlib.import_module(m).RULES)
    return R


def known():
    p = os.path.join(ROOT, 'known-findings.txt')
    K = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('KNOWN property='):
                rest = l[len('KNOWN property='):]
                pid, rest = rest.split(' ', 1)
                key, what = rest.split(' :: ', 1)
                K.setdefault(pid, {})[key] = what
    return K


LIMIT = 700


class Overtime(BaseException):
    pass


def overtime(*_):
    raise Overtime()


def run(pid, path, quiet=False):
    import lib
    t0 = time.time()
    ir = lib.IR(path)
    ck = lib.Check(pid, ir)
    try:
        signal.signal(signal.SIGALRM, overtime)
        signal.alarm(LIMIT)
    except ValueError:
        pass
    try:
        rules()[pid](ck)
    except Overtime:
        ck.undecided('internal', pid, 'the analysis did not finish in %d s' % LIMIT)
    except Exception:
        ck.undecided('internal', pid, 'the analysis failed on this program: ' + traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    return ck


def main():
    pid = sys.argv[1]
    repo = os.environ.get('VERIF_REPO', '/repo')
    t0 = time.time()
    path = os.environ.get('VERIF_DUMP') or dump(repo)
    try:
        ck = run(pid, path)
    finally:
        if not os.environ.get('VERIF_DUMP'):
            import shutil
            shutil.rmtree(os.path.dirname(path), ignore_errors=True)
    K = known().get(pid, {})
    viol = {k: d for k, d in ck.viol.items() if k not in K}
    kf = {k: d for k, d in ck.viol.items() if k in K}
    nd = sum(1 for o in ck.obl if o['status'] == 'discharged')
    ev = dict(property=pid, tier=os.environ.get('VERIF_TIER', 'quick'), seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
              coverage=dict(
                  explanation='Static analysis (path-sensitive abstract interpretation of the monomorphic MIR of the working tree; nothing executed). '
                              'Each obligation is a rule instance at one exit, loop, call site or table entry of the analysed functions.',
                  obligations=len(ck.obl), discharged=nd,
                  undecided=len([1 for o in ck.obl if o['status'] == 'undecided']),
                  functions_analysed=ck.functions, bodies_visited=len(ck.m.bodies_seen), exits=ck.exits,
                  rules={r: sum(1 for o in ck.obl if o['rule'] == r) for r in sorted({o['rule'] for o in ck.obl})},
                  samples=[o for o in ck.obl if o['detail']][:25],
                  undecided_items=ck.undec, known_findings=sorted(kf), violations=viol),
              assumptions=['transfer functions of engine/m*.py describe std, serde_json, base64, chrono, ssi-* and urlencoding operations correctly',
                           'the MIR of the nightly compiler describes the program the stable build runs'],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ep = os.path.join(ROOT, 'evidence', pid + '.json')
    with open(ep, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %d exits of %d functions (%d bodies), %.1f s' % (
        pid, len(ck.obl), nd, ev['coverage']['undecided'], ck.exits, len(ck.functions), len(ck.m.bodies_seen), time.time() - t0))
    for k, d in sorted(ck.undec.items()):
        print('UNDECIDED %s: %s' % (k, d[:600]))
    for k in sorted(kf):
        print('KNOWN-FINDING: property=%s %s' % (pid, K[k]))
    if viol:
        rp = os.path.join(ROOT, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for k, d in sorted(viol.items()):
                f.write('%s\n    %s\n' % (k, d))
        for k, d in sorted(viol.items())[:12]:
            print('violated: %s\n    %s' % (k, d[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)


if __name__ == '__main__':
    main()
