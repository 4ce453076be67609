"""Writes MANIFEST.json from the table of checks below and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'harness'))
TRACE = 'TLA+ specification checked with TLC; recorded executions of the real code are validated against it step by step'
MODEL = TRACE + '; transitions enumerated exhaustively by TLC from the same operators are replayed into the real code'
NOTE = ('Holds for every recorded history explored (all small graphs up to a bound, seeded random and adversarial larger ones) '
	'and, in the model, for every state within its constants. Trusts TLC, the tokenising of values by the harness and the public accessors it reads.')


def main():
	with open(os.path.join(VERIF, 'properties.jsonl')) as f:
		props = [json.loads(x) for x in f if x.strip()]
	os.environ.setdefault('VERIF_NO_IMPORT', '1')
	import re
	with open(os.path.join(VERIF, 'harness', 'plans.py')) as f:
		text = f.read()
	have = set(re.findall(r'\b(G\d\d)=', text))
	models = set(re.findall(r'\b(G\d\d)', re.search(r'WITH_MODEL = (.*)', text).group(1))) if 'WITH_MODEL' in text else set()
	checks = []
	for p in props:
		if p['id'] not in have:
			continue
		cmd = f'/opt/venv/bin/python -B harness/check.py {p["id"]}'
		checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd,
			technique=MODEL if p['id'] in models else TRACE, level='model_checking', level_note=NOTE))
	na = [dict(property=p['id'], reason='check under construction') for p in props if p['id'] not in have]
	m = dict(version=1, setup_cmd='/opt/venv/bin/python -B harness/setup.py', checks=checks, not_applicable=na,
		notes='Language: TLA+, checked with TLC. All checks: harness/check.py <property>; see DESIGN.md.')
	with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
		json.dump(m, f, indent=1)
		f.write('\n')


main()
