#!/usr/bin/env python3
"""Pretty-print bodies of a dump: pp.py DUMP [substring]"""
import json,sys
d=json.load(open(sys.argv[1]))
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%s'%e[2]
        elif e[0]=='v': s+=' as %s'%e[2]
        else: s+=str(e)
    return s
def callee(f):
    if f['kind']=='indirect': return 'INDIRECT '+op(f['op'])
    return '%s[%s]%s%s'%(f['path'], f['kind'], (' => '+f['rpath'] if f.get('rpath')!=f['path'] and 'rpath' in f else ''), (' #%d'%f['body'] if 'body' in f else ''))
def op(o):
    if o[0] in('cp','mv'): return pl(o[1])
    if o[0]=='fn': return 'fn '+callee(o[1])
    return str(o)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&'+('mut ' if r[1] else '')+pl(r[2])
    if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='cast': return '%s as %s (%s)'%(op(r[2]),d['types'][r[3]]['s'],r[1][:40])
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k=='adt': return '%s::%s{%s}'%(r[1],r[3],', '.join('%s:%s'%(a,op(b)) for a,b in zip(r[4],r[5])))
    if k in('arr','tup','rawptr'): return k+'('+', '.join(map(op,r[1]))+')'
    if k=='closure': return 'closure %s[%s]'%(r[1],', '.join(map(op,r[2])))
    return str(r)
def show(i):
    b=d['bodies'][i]
    print('=== #%d %s  [%s%s] argc=%d %s'%(i,b['full'],b['kind'],' shim' if b['shim'] else '',b['argc'],b['span']))
    nm=dict(b['names'])
    for k in range(len(b['locals'])):
        print('   let _%d: %s%s'%(k,d['types'][b['locals'][k]]['s'],'   // '+nm[k] if k in nm else ''))
    for j,bb in enumerate(b['blocks']):
        if bb is None: continue
        print('  bb%d:'%j)
        for s in bb['s']:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            else: print('   ',s)
        t=bb['t']
        if t[0]=='call': print('    %s = %s(%s) -> %s'%(pl(t[3]),callee(t[1]),', '.join(map(op,t[2])),t[4]))
        elif t[0]=='switch': print('    switch %s %s else %d'%(op(t[1]),t[2],t[3]))
        else: print('   ',t)
if __name__=='__main__':
    if len(sys.argv)==2:
        for i,b in enumerate(d['bodies']): print(i,b['crate'],b['full'],len(b['blocks']))
    else:
        for a in sys.argv[2:]:
            for i,b in enumerate(d['bodies']):
                if (a.isdigit() and int(a)==i) or (not a.isdigit() and a in b['full']): show(i)
