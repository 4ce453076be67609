"""Histories about object traversal (G15), graphs from objects and lists (G16) and random graphs (G17)."""
import elsewhere
from drivers import *
from replay import path


class Plain:
	"""an object equal only to itself"""
	def __init__(self, world, key):
		self.world, self.key = world, key

	def __parents__(self):
		return [self.world.get(k) for k in self.world.up[self.key]]

	def __children__(self):
		return [self.world.get(k) for k in self.world.down[self.key]]

	def __str__(self):
		return self.world.text[self.key]


class ByValue(Plain):
	"""an object made anew at every look, equal to every other one of its key"""
	def __eq__(self, other):
		return isinstance(other, ByValue) and other.key == self.key

	def __hash__(self):
		# zero and a negative number among them
		return 7 * self.key - 7

	def __bool__(self):
		return self.key % 2 == 0


class Unhashable(ByValue):
	"""the same, but of no use as a key"""
	__hash__ = None

	def __len__(self):
		return 0


CLASSES = dict(value=ByValue, unhashable=Unhashable)


class ObjWorld:
	def __init__(self, rng, n, pairs, kind, agree=True, texts=None):
		self.kind = kind
		self.keys = list(range(n))
		self.up = {i: [] for i in self.keys}
		self.down = {i: [] for i in self.keys}
		for i, j in pairs:
			self.down[i].append(j)
			self.up[j].append(i)
		if agree:
			for t in (self.up, self.down):
				for k in t:
					if rng.random() < .3:
						rng.shuffle(t[k])
		else:
			for k in self.keys:
				if rng.random() < .3:
					self.up[k] = [rng.randrange(n) for _ in range(rng.randrange(0, 4))]
		self.text = {i: (texts[i % len(texts)] if texts else f'object {i}') for i in self.keys}
		self.made = {i: Plain(self, i) for i in self.keys}

	def get(self, k):
		return self.made[k] if self.kind == 'plain' else CLASSES[self.kind](self, k)

	# what their owner does to them between questions
	def link(self, a, b, sides='both'):
		if sides != 'up':
			self.down[a].append(b)
		if sides != 'down':
			self.up[b].append(a)

	def unlink(self, a, b, sides='both'):
		if sides != 'up' and b in self.down[a]:
			self.down[a].remove(b)
		if sides != 'down' and a in self.up[b]:
			self.up[b].remove(a)

	def change(self, events, op, a, b, sides='both'):
		(self.link if op == 'link' else self.unlink)(a, b, sides)
		events.append(dict(op=op, a=self.t(a), b=self.t(b), sides=sides, res=dict(k='ok', o='-', w=0)))

	def rename(self, events, a, text):
		self.text[a] = text
		events.append(dict(op='text', a=self.t(a), v=esc(text), res=dict(k='ok', o='-', w=0)))

	def changes(self, rng, events, agree):
		"""some links made, some broken"""
		for _ in range(rng.randrange(1, 4)):
			sides = 'both' if agree or rng.random() < .6 else rng.choice(['up', 'down'])
			there = [(a, b) for a in self.keys for b in self.down[a]]
			if there and rng.random() < .5:
				self.change(events, 'unlink', *rng.choice(there), sides)
			else:
				self.change(events, 'link', rng.choice(self.keys), rng.choice(self.keys), sides)
		if rng.random() < .3:
			self.rename(events, rng.choice(self.keys), rng.choice(TEXTS_OF_OBJECTS))

	def t(self, k):
		return f'o{k}'

	def tables(self):
		return dict(
			up={self.t(k): [self.t(x) for x in v] for k, v in self.up.items()}, down={self.t(k): [self.t(x) for x in v] for k, v in self.down.items()},
			text={self.t(k): esc(v) for k, v in self.text.items()})


def ask(events, e, fn):
	value, res = guarded(fn)
	res['o'] = '-'
	e['res'] = res
	e['obs'] = value if res['k'] == 'ok' else {}
	events.append(e)


def limits(rng, n):
	return [None, None, 0, -1, 1, 2, 3, rng.randrange(0, n + 2)]


def traversal_event(rng, w, events, op, k, m, d):
	obj = w.get(k)
	f = get_ancestors if op == 'ancestors' else get_descendants
	kw = {} if m is None and rng.random() < .5 else {'max_height' if op == 'ancestors' else 'max_depth': m}
	if not (d and rng.random() < .5):
		kw['distance'] = d

	def fn():
		r = f(obj, **kw)
		if d:
			obs = dict(groups=[[x, [w.t(o.key) for o in y]] for x, y in r.items()])
			for y in r.values():
				y.clear()
		else:
			obs = dict(list=[w.t(o.key) for o in r])
		# the answer is the caller's to do with as they please
		r.clear()
		return obs
	ask(events, dict(op=op, obj=w.t(k), dist=d, limited=m is not None, limit=m or 0), fn)


def traversal_events(rng, w, starts, many):
	events = []
	for k in starts:
		todo = [(op, d, m) for op in ('ancestors', 'descendants') for d in (True, False) for m in [None, 0, -2, 1, 2, 3, len(w.keys)]]
		if not many:
			todo = rng.sample(todo, 8)
		for op, d, m in todo:
			traversal_event(rng, w, events, op, k, m, d)
	return events


def some_texts(rng):
	return TEXTS_OF_OBJECTS if rng.random() < .5 else None


def traversal_histories(rng, n4, count):
	for n in (1, 2, 3):
		for pairs in small_digraphs(n):
			w = ObjWorld(rng, n, pairs, rng.choice(['plain', 'value', 'unhashable']), texts=some_texts(rng))
			yield dict(id=f'small-{n}', ev=traversal_events(rng, w, range(n), n < 3), **w.tables())
	for pairs in small_digraphs(4, n4, rng):
		w = ObjWorld(rng, 4, pairs, rng.choice(['plain', 'value', 'unhashable']), texts=some_texts(rng))
		yield dict(id='four', ev=traversal_events(rng, w, [0, 1], False), **w.tables())
	for k in range(count):
		n = rng.randrange(4, 12)
		pairs = random_pairs(rng, n)
		pairs += [c for c in pairs if rng.random() < .2]
		w = ObjWorld(rng, n, pairs, rng.choice(['plain', 'value', 'unhashable']), agree=rng.random() < .7, texts=some_texts(rng))
		yield dict(id=f'random-{k}', ev=traversal_events(rng, w, rng.sample(range(n), 3), False), **w.tables())
	for k in range(count):
		# objects whose links change between the questions
		n, agree = rng.randrange(1, 8), rng.random() < .6
		w = ObjWorld(rng, n, random_pairs(rng, n) if n > 2 else [], rng.choice(['plain', 'value', 'unhashable']), texts=some_texts(rng))
		tables, ev = w.tables(), []
		for _ in range(4):
			for x in rng.sample(range(n), min(n, 3)):
				traversal_event(rng, w, ev, rng.choice(['ancestors', 'descendants']), x, rng.choice([None, None, 0, 1, 2, n]), rng.random() < .6)
			w.changes(rng, ev, agree)
		yield dict(id=f'living-{k}', ev=ev, **tables)
	# longer than any recursion limit
	w = ObjWorld(rng, 1300, [(i, i + 1) for i in range(1299)], 'plain')
	yield dict(id='chain', ev=traversal_events(rng, w, [0, 1299], False), **w.tables())


# ---------------------------------------------------------------- G16
def object_event(rng, w, k, events, every=None):
	depth, height = every or (rng.choice(limits(rng, len(w.keys))), rng.choice(limits(rng, len(w.keys))))
	strict = rng.random() < .5
	obj = w.get(k)
	kw = {}
	if depth is not None or rng.random() < .5:
		kw['max_depth'] = depth
	if height is not None or rng.random() < .5:
		kw['max_height'] = height
	if strict:
		kw['strict'] = True
	names = {hash(w.get(x)): w.t(x) for x in w.keys}

	def fn():
		g = Graph.from_object(obj, **kw)
		edges = [e for n in g.nodes for e in n.outward_edges_dict.values()]
		return dict(
			nodes=[names.get(n.name, esc(repr(n.name))) for n in g.nodes], labels=[esc(str(n.label)) for n in g.nodes],
			edges=[[names.get(e.start.name, '?'), names.get(e.end.name, '?')] for e in edges], strict=g.get_graphviz_header().startswith('strict'))
	ask(events, dict(op='from_object', obj=w.t(k), dlimited=depth is not None, dlimit=depth or 0, ulimited=height is not None, ulimit=height or 0, strict=strict), fn)


def lists_event(rng, events, rows=None):
	names = rng.sample(NAMES, rng.randrange(1, 6))
	labels = ['n', 's:', 'i:0', 's:x', 's:y', 'i:3']
	if rows is None:
		rows = [[rng.choice(names), rng.choice(names), rng.choice(labels)] for _ in range(rng.randrange(0, 9))]
		rows += [list(r) for r in rows if rng.random() < .25]
	strict = rng.random() < .4
	kw = dict(strict=True) if strict else {}

	def fn():
		g = Graph.from_lists([untok(r[0]) for r in rows], [untok(r[1]) for r in rows], [untok(r[2]) for r in rows], **kw)
		return dict(
			nodes=[tok(n.name) for n in g.nodes], out={tok(n.name): [[tok(e.end.name), tok(e.raw_label)] for e in n.outward_edges] for n in g.nodes},
			inn={tok(n.name): [[tok(e.start.name), tok(e.raw_label)] for e in n.inward_edges] for n in g.nodes}, count=len(g.edges),
			strict=g.get_graphviz_header().startswith('strict'))
	ask(events, dict(op='from_lists', rows=rows, strict=strict), fn)


TEXTS_OF_OBJECTS = ['same', 'same', 'a', 'b', 'a', 'same', 'same', 'x "y"', 'two words', 'node', '0', 'é']


def builder_histories(rng, n4, count):
	def history(hid, n, pairs, starts, times, texts):
		w = ObjWorld(rng, n, pairs, rng.choice(['plain', 'value']), texts=texts)
		ev = []
		for k in starts:
			for _ in range(times):
				object_event(rng, w, k, ev)
		return dict(id=hid, ev=ev, **w.tables())
	for n in (1, 2, 3):
		for pairs in small_digraphs(n):
			yield history(f'small-{n}', n, pairs, range(n), 3, TEXTS_OF_OBJECTS if rng.random() < .5 else None)
	for pairs in small_digraphs(4, n4, rng):
		yield history('four', 4, pairs, [0, 2], 2, None)
	for k in range(count):
		n = rng.randrange(4, 12)
		pairs = random_pairs(rng, n)
		pairs += [c for c in pairs if rng.random() < .2]
		yield history(f'random-{k}', n, pairs, rng.sample(range(n), 3), 3, TEXTS_OF_OBJECTS if rng.random() < .5 else None)
	for k in range(count // 2):
		n = rng.randrange(1, 8)
		w = ObjWorld(rng, n, random_pairs(rng, n) if n > 2 else [], rng.choice(['plain', 'value']), texts=some_texts(rng))
		tables, ev = w.tables(), []
		for _ in range(4):
			for x in rng.sample(range(n), min(n, 2)):
				object_event(rng, w, x, ev)
			w.changes(rng, ev, True)
		yield dict(id=f'living-{k}', ev=ev, **tables)
	yield history('chain', 1200, [(i, i + 1) for i in range(1199)], [0, 600, 1199], 2, None)
	empty = dict(up={}, down={}, text={})
	for k in range(count):
		ev = []
		for _ in range(3):
			lists_event(rng, ev)
		yield dict(id=f'lists-{k}', ev=ev, **empty)
	T = ['s:a', 's:b', 'i:1']
	rows = [[a, b, c] for a in T for b in T for c in ('n', 's:x')]
	for size in (1, 2):
		for combo in itertools.product(rows, repeat=size):
			ev = []
			lists_event(rng, ev, [list(r) for r in combo])
			yield dict(id='rows', ev=ev, **empty)


# ---------------------------------------------------------------- the transitions of ObjectModel
class ObjectReplay:
	"""makes and breaks the links of real objects on the way to a question of the model, asking other questions meanwhile"""
	def __init__(self, rng, objects, kinds):
		self.rng, self.objects, self.kinds = rng, objects, kinds
		self.states = {}

	def history(self, t, i):
		rng = self.rng
		w = ObjWorld(rng, len(self.objects), [], rng.choice(self.kinds), texts=some_texts(rng))
		tables, ev = w.tables(), []
		key = {x: k for k, x in enumerate(rng.sample(self.objects, len(self.objects)))}
		e = t['e']
		for x in path(self.states, t['at']):
			w.change(ev, x['op'], key[x['a']], key[x['b']], x['sides'])
			if rng.random() < .3:
				self.question(w, ev, key, e)
		self.question(w, ev, key, e)
		return dict(id=str(i), ev=ev, **tables)

	def question(self, w, ev, key, e):
		limit = lambda p='': e[p + 'limit'] if e[p + 'limited'] else None
		if e['op'] == 'from_object':
			object_event(self.rng, w, key[e['obj']], ev, (limit('d'), limit('u')))
		else:
			traversal_event(self.rng, w, ev, e['op'], key[e['obj']], limit(), self.rng.random() < .6)


# ---------------------------------------------------------------- G17
def random_graph_histories(rng, count):
	def one(n, start, p, cycle, seed, strict, order, as_default):
		ev = []
		kw = dict(num_nodes=n, connection_probability=p, seed=seed)
		if start != 1 or not as_default:
			kw['start_index'] = start
		if cycle or not as_default:
			kw['cycle'] = cycle
		if strict or not as_default:
			kw['strict'] = strict
		if not order or not as_default:
			kw['ordering'] = order

		def fn():
			random.seed(rng.random())
			g = Graph.random(**kw)
			names = [n.name for n in g.nodes]
			at = {x: i + 1 for i, x in enumerate(names)}
			edges = [[at[e.start.name], at[e.end.name]] for n in g.nodes for e in n.outward_edges_dict.values()]
			same = ['-']
			if seed is not None:
				same = [elsewhere.digest_of_random(g)]
				for burn in (1, 7):
					for _ in range(burn):
						random.random()
					if burn == 7:
						Graph.random(num_nodes=3, seed=(seed or 0) + 1)
						Graph.random(num_nodes=3)
						random.seed(None)
					same.append(elsewhere.digest_of_random(Graph.random(**kw)))
				same += elsewhere.ask(what='random graph', kw=kw, burn=rng.randrange(99))
			header = g.get_graphviz_header()
			return dict(names=[esc(x) if isinstance(x, str) else tok(x) for x in names], edges=edges, same=same,
				strict=header.startswith('strict'), ord='ordering=out' not in header)
		ask(ev, dict(op='random', n=n, start=start, cycle=cycle, strict=strict, ord=order, p='low' if p <= 0 else 'high' if p >= 1 else 'mid'), fn)
		return dict(id=f'random-{n}', ev=ev, up={}, down={}, text={})
	for n in range(0, 6):
		for start in (1, 0, -2, 9):
			for p in (0, 1, 0.5, -1, 2.5, 0.0, 1.0):
				for cycle in (False, True):
					yield one(n, start, p, cycle, rng.choice([None, 0, 1, 42, 'text' if False else 7]), rng.random() < .5, rng.random() < .5, rng.random() < .5)
	for _ in range(count):
		yield one(rng.randrange(0, 16), rng.choice([1, 0, 5, -7, 99]), rng.choice([0, 1, .1, .3, .9, .999, .001, 1.0000001, -0.0, 3]), rng.random() < .5,
			rng.choice([None, 0, 1, 2, 12345, -5, rng.randrange(10 ** 9)]), rng.random() < .5, rng.random() < .5, rng.random() < .5)
	# what comes over many seeds, and without any
	for n, cycle in ((0, True), (1, False), (1, True), (2, False), (2, True), (3, False)):
		for p, kind in ((0, 'low'), (.4, 'mid'), (.5, 'mid'), (1, 'high')):
			for seeds in (range(700), [None] * 700):
				ev = []

				def fn():
					met = set()
					for seed in seeds:
						g = Graph.random(num_nodes=n, cycle=cycle, connection_probability=p, **({} if seed is None else dict(seed=seed)))
						at = {node.name: i + 1 for i, node in enumerate(g.nodes)}
						met.add(tuple(sorted((at[e.start.name], at[e.end.name]) for e in g.edges)))
					return dict(met=sorted(met))
				random.seed(rng.random())
				ask(ev, dict(op='spread', n=n, cycle=cycle, p=kind), fn)
				yield dict(id=f'spread-{n}', ev=ev, up={}, down={}, text={})
