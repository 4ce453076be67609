"""Rewrites the generated tables of DESIGN.md (between the markers) from seeded/, known_findings.json and the properties."""
import json
import os
import re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seeds():
	rows = ['| planted change | property | what it breaks | what it needs to show | caught by |', '|---|---|---|---|---|']
	base = os.path.join(VERIF, 'seeded')
	for d in sorted(os.listdir(base)):
		with open(os.path.join(base, d, 'meta.json')) as f:
			m = json.load(f)
		by = m.get('caught_by') or f'{m["property"]} quick'
		rows.append('| ' + ' | '.join(str(x).replace('|', '\\|').replace('\n', ' ') for x in (d, m['property'], m['what_it_breaks'], m['needs'], by)) + ' |')
	return '\n'.join(rows)


def fixed():
	with open(os.path.join(VERIF, 'known_findings.json')) as f:
		k = json.load(f)
	rows = ['- ' + (x if isinstance(x, str) else x['line']).replace('fixed: ', '') for x in k['fixed']]
	return '\n'.join(rows)


def main():
	path = os.path.join(VERIF, 'DESIGN.md')
	with open(path) as f:
		text = f.read()
	for name, fn in (('seeds', seeds), ('fixed', fixed)):
		text = re.sub(rf'(<!-- {name} -->\n).*?(<!-- end {name} -->)', lambda m: m.group(1) + fn() + '\n' + m.group(2), text, flags=re.S)
	with open(path, 'w') as f:
		f.write(text)


main()
