"""Histories about indented outlines (G18)."""
from drivers import *
from abstract.parse_indentations_function import parse_indentations

TEXTS = ['x', 'y', 'x', 'two words', 'x\ty', 'end ', 'end\t', '0', '- item', '"quoted"', 'é', 'a\nb' if False else 'a: b', '#', '\\t', 'root', 'x' * 40, 'end\r', 'end\x0c', 'end\u2028', 'a\u00a0b', 'x\r\r']
BLANKS = {'t': '\t', 's': ' '}
UNITS = ['t', 's', 'ss', 'ssss', 'tt', 'ts', 'sss']


def line(ws, text, newline):
	return ''.join(BLANKS[c] for c in ws) + text + ('\n' if newline else '')


def events_of(rng, lines, unit, newline, how=('parse', 'build')):
	"""lines: list of (blanks, text)"""
	given = None if unit == '' else ''.join(BLANKS[c] for c in unit)
	texts = [line(ws, t, newline) for ws, t in lines]
	shown = [dict(ws=list(ws), text=esc(t)) for ws, t in lines]
	events = []
	for op in how:
		kw = {} if given is None and rng.random() < .5 else dict(indent=given)
		root = rng.choice(['root', 'r', 'x "y"', 'the root'])
		e = dict(op=op, lines=shown, unit=list(unit), root=tok(root))
		if op == 'parse':
			def fn():
				rows = list(parse_indentations(list(texts), **kw))
				return dict(rows=[dict(i=i, l=level, t=esc(content), p=-1 if parent is None else parent) for i, level, content, parent in rows])
		else:
			def fn():
				g = Graph.from_indented_text(root, list(texts), **kw)
				out = {tok(n.name): [tok(x.end.name) for x in n.outward_edges] for n in g.nodes}
				return dict(nodes=[tok(n.name) for n in g.nodes], label=tok(g.get_node('root').label), out=out, count=len(g.edges))
		value, res = guarded(fn)
		e['res'] = res
		e['obs'] = value if res['k'] == 'ok' else {}
		events.append(e)
	return events


def outline_histories(rng, n4, count):
	# every outline of up to three lines over a small alphabet of lines, with the unit given or found
	blanks = ['', 't', 'tt', 'ttt', 's', 'ss', 'ts', 'st']
	alphabet = [(b, 'x') for b in blanks] + [('', '')]
	for size in (0, 1, 2, 3):
		for combo in itertools.product(alphabet, repeat=size):
			if size == 3 and rng.random() < .4:
				continue
			for unit in ('', 't', 'ss'):
				if size == 3 and rng.random() < .6:
					continue
				yield dict(id=f'lines-{size}', ev=events_of(rng, combo, unit, rng.random() < .5, ('parse', 'build') if size < 3 else ('parse',)))
	# every shape of four and five levels, with empty lines
	shapes = list(itertools.product([0, 1, 2, 3, None], repeat=4)) + list(itertools.product([0, 1, 2, None], repeat=5))
	for shape in rng.sample(shapes, min(n4, len(shapes))):
		unit = rng.choice(UNITS)
		lines = [('', '') if v is None else (unit * v, rng.choice(TEXTS)) for v in shape]
		yield dict(id='shape', ev=events_of(rng, lines, rng.choice(['', unit]), rng.random() < .5))
	for k in range(count):
		unit = rng.choice(UNITS)
		lines, level = [], 0
		for _ in range(rng.randrange(3, 40)):
			x = rng.random()
			if x < .15:
				lines.append(('', ''))
				continue
			level = max(0, min(level + 1, level + rng.choice([1, 1, 0, 0, -1, -1, -2, -3, -9]))) if lines else 0
			lines.append((unit * level, rng.choice(TEXTS)))
			if not [x for x in lines if x[1]][:-1]:
				level = 0
				lines[-1] = ('', lines[-1][1])
		if rng.random() < .5:
			# one line out of place
			i = rng.randrange(len(lines))
			ws, t = lines[i]
			lines[i] = (rng.choice([ws + unit, ws + unit * 2, ws + 's', 't' + ws, ws[:-1], ws + 't', unit]), t or 'x')
		yield dict(id=f'random-{k}', ev=events_of(rng, lines, rng.choice(['', '', unit]), rng.random() < .5))
	# deep
	lines = [('t' * i, 'x') for i in range(150)] + [('', 'y')] + [('t' * i, 'x') for i in (1, 2, 3)]
	yield dict(id='deep', ev=events_of(rng, lines, '', False, ('build',)))
