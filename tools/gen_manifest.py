#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rule tables (a property is claimed when a rule module exports it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'rules')); sys.path.insert(0, os.path.join(V, 'engine'))
import check
R = check.rules()
PATHS = 'path-sensitive abstract interpretation (dataflow) of the monomorphic MIR: %s'
TECH = {
 'C01': 'guard facts at every accepting exit', 'C02': 'guard facts at every accepting exit', 'C03': 'length bounds at every exit',
 'C04': 'reachability of accepting exits', 'C05': 'guard facts and provenance of fields at every refusing exit', 'C06': 'provenance of every response field',
 'C07': 'guard facts at every exit, allocation-site census of the response type', 'C08': 'loop summaries and guard facts at every exit',
 'C09': 'provenance of offer fields and of the URL string', 'C10': 'loop summaries (pairwise comparison, hash-set membership) at every exit',
 'C11': 'guard facts at every exit', 'C12': 'guard facts over symbolic time at every exit', 'C13': 'guard facts at every exit',
 'C14': 'guard facts at every exit', 'C15': 'guard facts at every exit', 'C16': 'variant facts at every exit', 'C17': 'guard facts over symbolic time at every exit',
 'C18': 'guard facts at every exit', 'C19': 'guard facts at every refusing exit', 'C20': 'provenance of every returned field',
 'C21': 'provenance of the returned signature and message', 'C22': 'provenance of the returned DID', 'C23': 'provenance of returned key bytes',
 'C24': 'string-segment provenance at every exit', 'C25': 'discriminant tables and the reads of them', 'C26': 'provenance of return-object fields',
 'C27': 'taint (provenance) analysis of every refusing exit', 'C28': 'reachability of panic exits from every entry point',
 'C29': 'effect analysis of every call and static, time provenance of decisions', 'C30': 'wire-name tables extracted from serializer paths',
 'C31': 'wire-name tables extracted from four conversions and compared', 'C32': 'wire-name tables extracted and compared', 'C33': 'provenance of the encoded credential',
 'C34': 'wire-name tables of two types compared', 'C35': 'wire-name tables extracted from (de)serializer paths', 'C36': 'wire-name tables extracted from (de)serializer paths',
 'C37': 'wire-name tables extracted from (de)serializer paths', 'C38': 'loop summaries and provenance of list items', 'C39': 'codec configuration and provenance',
 'C47': 'reader tables extracted from deserializer paths, refusals of the member loop', 'C48': 'census of derived operations, guard facts of hand-written ones',
 'C49': 'text templates extracted from every Display path, compared', 'C50': 'provenance of constructed fields',
 'C51': 'ranking measure for every loop and recursive call, states that repeat themselves',
 'C43': 'wire-name tables extracted from (de)serializer paths', 'C44': 'wire-name tables extracted from four conversions and compared',
 'C45': 'census of unsafe operations, reachability of undefined-behaviour exits from every entry point', 'C46': 'wire-name tables of error details, provenance of every refusal',
}
NA = {
 'C40': 'The library keeps no state between calls (that is property C29), so redemption history lives entirely in the caller; no construct of this code decides it.',
 'C41': 'Equality of values after a round trip quantifies over runtime values; the structural part (same member names in both directions, same field for each) is decided by C30-C37 and nothing further is visible in the shape of this code.',
 'C42': 'Soundness of signature schemes is not a fact about this source: the library verifies no signature; which bytes and key it hands out is decided by C20, C21 and C23.',
}
NOTE = ('Decides the property for every path of the analysed functions of the current tree, loops by invariant summaries. Trusts the transfer functions written in '
        'engine/ for std, serde, serde_json, base64, chrono, ssi and urlencoding calls, and the nightly MIR as a description of the program. A path through an operation the '
        'analysis has no transfer function for is reported as UNDECIDED and never as a violation.')
L = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    if p['id'] in R:
        c = 'python3 rules/check.py ' + p['id']
        L.append(dict(property=p['id'], quick_cmd=c, thorough_cmd=c, technique=PATHS % TECH.get(p['id'], 'rule table'), level='other', level_note=NOTE))
    elif p['id'] not in NA:
        NA[p['id']] = 'Rule not written yet.'
NAL = [dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in R]
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=L, not_applicable=NAL,
               notes='No hooks: the checks read the source of /repo through the compiler and need no change to it.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(L), 'claimed', len(NAL), 'not')
