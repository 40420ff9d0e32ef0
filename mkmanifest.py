"""development only: writes MANIFEST.json"""
import json
T = ("contract-based deductive verification: contracts (contracts/c{n}.py) turned into proof obligations by symbolic execution of the instrumented real source "
     "with inferred and checked loop summaries, discharged by a polynomial normaliser, z3 and cvc5; the same contracts evaluated on the real package as counterexample replay and bounded cross-check")
LEVEL = {}
NOTE = {}
NA = {}
props = [json.loads(l) for l in open('properties.jsonl')]
exec(open('manifest_notes.py').read())
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough', technique=TECH.get(i, T.format(n=i[1:])),
                       level=LEVEL.get(i, 'proof'), level_note=NOTE.get(i, '')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]), open('MANIFEST.json', 'w'), indent=1)
