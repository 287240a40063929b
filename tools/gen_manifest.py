import importlib, json, os, sys
sys.path.insert(0, '/verif')
NA = {
 'C31': 'End-to-end liveness over a network within time and memory bounds quantifies over runtime schedules and transport behaviour that no sound static argument in reach can bound; its safety parts are claimed as C04-C12 and C19.',
 'C32': 'Statistical unpredictability of the rand crate is a property of runtime values of an external generator; that every frame and handshake draws a new value from it is claimed as C04 and C18.',
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('/verif/wsa/props/%s.py' % i.lower()):
        m = importlib.import_module('wsa.props.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3 -m wsa.check ' + i, 'thorough_cmd': 'python3 -m wsa.check ' + i,
            'technique': getattr(m, 'TECHNIQUE', 'abstract interpretation of MIR (path-partitioned, table/linear/sequence domains)'),
            'level': m.LEVEL,
            'level_note': getattr(m, 'NOTE', m.EXPLANATION + ' Trusts the MIR extraction, the models of external functions and the abstract interpreter itself.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for it yet.')})
json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks: the analysis reads the MIR of the unmodified crates.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
