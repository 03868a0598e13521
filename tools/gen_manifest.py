#!/usr/bin/env python3
"""Writes MANIFEST.json from the check registry and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks
TECH = {
 'W01': 'abstract interpretation of codec MIR (bit provenance per magnitude class), encoder vs decoder',
 'W02': 'abstract interpretation of codec MIR (bit provenance per magnitude class) against format tables',
 'W03': 'abstract interpretation of size functions vs encoders per magnitude class',
 'W04': 'effect-tree unification of length-prefixed encoders and decoders (MIR)',
 'W05': 'interval analysis of encoders on out-of-range classes; narrowing-cast lint at wire writes',
 'N01': 'interval analysis of MIR per magnitude class',
 'R04': 'congruence/interval analysis of MIR per residue class',
 'R01': 'effect-tree unification of Array read/size against write (MIR)',
 'R02': 'relational abstract interpretation of DeltaContext (MIR)',
 'R03': 'abstract interpretation of every ArrayTrait impl (MIR)',
 'G01': 'effect-tree unification of generated decoders with encoders (MIR)',
 'G02': 'symbolic bit-position of encoder effect tree vs returned size term (MIR)',
 'G03': 'effect-tree unification and size terms of generated packed code (MIR)',
 'G04': 'context-tree shape and init/write feed comparison (MIR)',
 'G05': 'encoder effect trees vs layout computed by an independent schema front end',
 'G06': 'match tables of generated enums/bitmasks vs schema values',
 'G07': 'generated expression terms vs schema expression terms',
 'G08': 'resolved types of generated encoders vs independent name resolution',
 'G09': 'dataflow: parameter stores before nested decoder calls, vs schema arguments',
 'H01': 'panic-edge reachability with value-range discharge over decoder MIR',
 'H02': 'taint of wire lengths into allocation sites',
 'H03': 'must-use dataflow on Result values and error-mapping table',
 'H04': 'inventory of unsafe, statics, interior mutability and mutation effects',
 'A01': 'must-pass-through analysis of the public API (MIR)',
 'C01': 'hash-order taint into emission (MIR of the generator)',
 'C02': 'file-effect inventory, path provenance and error discipline (MIR of the generator)',
 'C03': 'must-flow analysis from grammar accessors to the syntax tree (MIR of the schema visitor), field-use analysis',
 'C04': 'type checking of the code emitted for the schema corpus (rustc)',
}
NA = {
 'T01': 'running time is a quantity over executions; no sound static bound in reach covers decoding loops whose trip count is wire data with zero-bit elements',
 'T02': 'quantifies over every schema text; a static argument over the generator for all inputs is out of reach, the decidable part is C04 and G01-G09 on a corpus',
}
reg = checks.registry()
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
out = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in reg:
        lv = checks.level(i, reg[i])
        out['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                              'technique': TECH[i], 'level': lv,
                              'level_note': getattr(reg[i], 'note', 'sound for the analysed sources modulo the trusted base named in the evidence; see DESIGN.md')})
    else:
        out['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks')
