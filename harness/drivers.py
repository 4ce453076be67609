"""Generators of histories: random ones over nasty inputs, and systematic ones over small graphs.

Every random choice comes from the generator passed in, which is seeded from VERIF_SEED.
"""
import itertools

from world import *
import elsewhere
import observe as ob

NAMES = ['s:a', 's:b', 's:c', 'i:0', 'i:1', 's:1', 's:', 's:0', 's:x%20y', 's:d', 's:e', 'i:-3', 's:f', 's:node', 'i:12']
LETTERS = ['s:' + c for c in 'abcdefghijkl']
IDS = ['n', 'n', 'n', 'i:0', 'i:1', 's:', 's:0', 's:x']
ODD_IDS = [None, False, True, '', (), (0,), 2.5, 'None']
VALS = ['n', 'i:0', 'i:5', 's:', 's:v', 'b:False', 'f:0.0', 'j:%5B%5D', 'j:%5B1%5D', 'i:-2']
LABS = ['n', 's:', 's:L1', 's:l%202', 'i:0']
STYLES = ['-', '-', '-', 'A', 'B', 'D', 'F']
HOWS = ['copy', 'deepcopy', 'copy.copy.copy', 'pickle0', 'pickle1', 'pickle2', 'pickle3', 'pickle4', 'pickle5']


def plain(**kw):
	return dict(dict(lab='n', val='n', sty='-', par={}), **kw)


TIPS = ['s:tip', 's:other', 's:', 'i:0']


class Gen:
	def __init__(self, rng, names=None, ids=None, vals=None, labs=None, styles=None, pars=True):
		self.rng = rng
		self.w = World()
		self.names = names or NAMES
		self.ids = ids or IDS
		self.vals = vals or VALS
		self.labs = labs or LABS
		self.styles = styles or STYLES
		self.pars = pars
		self.count = 0
		self.ctor = True
		self.obj_same_graph = False
		self.tips = False
		self.foreign = False
		self.given = []      # descriptions given, with what they said
		self.bad = False     # whether things that are no styles are given as styles

	# ------------------------------------------------ choices
	def ch(self, seq):
		return seq[self.rng.randrange(len(seq))]

	def coin(self, p=0.5):
		return self.rng.random() < p

	def graphs(self):
		return list(self.w.graphs)

	def p(self, g):
		return self.w.snaps[g]['p']

	def broken(self):
		return any(not s['ok'] for s in self.w.snaps.values())

	def fresh(self):
		self.count += 1
		return f'g{self.count}'

	def attrs(self, new=True, empty=0.35):
		if self.coin(empty):
			return plain()
		par = {}
		if self.pars and new and self.coin(0.2):
			par = {self.ch(PARAMS): self.ch(self.vals[1:])}
		sty = '!' if self.bad and self.coin(.08) else self.ch(self.styles)
		return plain(lab=self.ch(self.labs), val=self.ch(self.vals), sty=sty, par=par)

	def nodes(self, g):
		return self.p(g)['nodes']

	def edges(self, g):
		p = self.p(g)
		return [k for n in p['nodes'] for k in p['out'][n]]

	# ------------------------------------------------ operations
	def new(self, ow=None, conv=None, **kw):
		g = self.fresh()
		self.w.do(dict(
			op='new', g=g, strict=self.coin(), ord=self.coin(), ow=ow or ('y' if self.coin(0.3) else 'n'),
			conv=self.coin(0.2) if conv is None else conv, kw=kw
		))
		return g

	def add_node(self, g, name=None, a=None, pol=None, how=None):
		how = how or ('ctor' if self.ctor and self.coin(0.08) else 'graph')
		pol = pol or self.ch(['warn', 'ignore', 'ignore', 'error', 'default'])
		if how == 'graph' and name is None and self.coin(0.03):
			return self.w.do(dict(op='add_node', g=g, name=self.ch(list(BAD_NAMES)), a=plain(), pol=pol, how=how, kind='bad'))
		name = name or self.ch(self.names)
		a = a or self.attrs()
		if name in self.nodes(g):
			a = dict(a, par={})
		elif self.tips and self.coin(.2):
			a = dict(a, tip=self.ch(TIPS))
		return self.w.do(dict(op='add_node', g=g, name=name, a=a, pol=pol, how=how, kind='ok', sd=self.coin(0.4), derived=self.coin(.05)))

	def add_obj(self, g):
		cands = []
		if self.w.gone_nodes:
			cands += [n for n in self.w.gone_nodes if not self.obj_same_graph or self.w.gone_home[self.w.reg(n)] == g] * 3
		for h in self.graphs():
			if self.w.snaps[h]['ok'] and self.w.graphs[h].nodes and (h == g or not self.obj_same_graph):
				cands.append(self.ch(self.w.graphs[h].nodes))
		if not cands:
			return
		node = self.ch(cands)
		if tok(node.name) in self.nodes(g) and node.graph is not self.w.graphs[g] and self.coin(0.7):
			return
		at = attributes_of(node)
		return self.w.do(dict(op='add_obj', g=g, o=self.w.reg(node), og=self.w.reg(node.graph), name=tok(node.name), at=at))

	def rm_node(self, g):
		if self.nodes(g):
			return self.w.do(dict(op='rm_node', g=g, name=self.ch(self.nodes(g)), by=self.by()))

	def strip(self, g):
		"""all edges of one node go"""
		if self.nodes(g):
			return self.w.do(dict(op='strip', g=g, name=self.ch(self.nodes(g))))

	def by(self):
		return 'foreign' if self.foreign and self.coin(.08) else self.ch(['name', 'obj'] * 8 + ['derived'])

	def touch(self, g):
		"""a list kept as a value grows in place"""
		p = self.p(g)
		cands = [('n', x) for x in p['nodes'] if p['na'][x]['val'].startswith('j:') and not p['na'][x]['frz']]
		cands += [('e', x) for x in self.edges(g) if p['ea'][x]['val'].startswith('j:') and not p['ea'][x]['frz']]
		if cands:
			c, x = self.ch(cands)
			v = p['na' if c == 'n' else 'ea'][x]['val']
			return self.w.do(dict(op='set', g=g, c=c, x=x, f='val', v=tok(untok(v) + [1]), sd=False, how='touch'))

	def connect(self, g, s=None, e=None, r=None, a=None, pol=None, how=None):
		ns = self.nodes(g)
		unknown = s is None and self.coin(0.04)
		if not ns:
			return
		how = how or self.ch(['graph', 'graph', 'to', 'from'] + (['ctor'] if self.ctor and self.coin(0.3) else []))
		s = s or self.ch(ns)
		e = e or (s if self.coin(0.12) else self.ch(ns))
		sb, eb = self.by(), self.by()
		if unknown:
			how = 'graph'
			stranger = self.ch([n for n in self.names if n not in ns] or ['s:zz'] + list(BAD_NAMES))
			if self.coin():
				s, sb = stranger, 'name'
			else:
				e, eb = stranger, 'name'
		r = r or self.ch(self.ids)
		a = a or self.attrs()
		if edge_key_of(s, e, r) in self.p(g)['ea']:
			a = dict(a, par={})
		elif self.tips and self.coin(.2):
			a = dict(a, tip=self.ch(TIPS))
		return self.w.do(dict(
			op='connect', g=g, s=s, e=e, r=r, a=a, pol=pol or self.ch(['warn', 'ignore', 'ignore', 'error', 'default']),
			how=how, sb=sb, eb=eb, sd=self.coin(0.4)
		))

	def disconnect(self, g, stale=False):
		if stale:
			if not self.w.gone_edges:
				return
			edge = self.ch(self.w.gone_edges)
			if edge.graph is not None:
				return
			return self.w.do(dict(op='disconnect', g=g, key='-', o=self.w.reg(edge), stale=True, how=self.ch(['self', 'graph'])))
		ks = self.edges(g)
		if ks:
			return self.w.do(dict(op='disconnect', g=g, key=self.ch(ks), stale=False, how=self.ch(['self', 'graph'])))

	def move(self, g):
		"""an edge is replaced by one with the same content that starts, ends or is called otherwise"""
		ks = self.edges(g)
		if not ks:
			return
		k = self.ch(ks)
		x = self.p(g)['ea'][k]
		self.w.do(dict(op='disconnect', g=g, key=k, stale=False, how='self'))
		if self.broken():
			return
		s, e, r = x['s'], x['e'], x['r']
		c = self.rng.randrange(4)
		if c == 0:
			s = self.ch(self.nodes(g))
		elif c == 1:
			e = self.ch(self.nodes(g))
		elif c == 2:
			r = self.ch(self.ids)
		else:
			s, e = e, s
		a = plain(lab=x['lab'], val=x['val'], sty=x['sty'] if x['sty'] in ('-', 'A', 'B', 'D', 'F') else '-')
		return self.connect(g, s, e, r, a, pol='ignore', how='graph')

	def exchange(self, g):
		"""two nodes or two edges exchange their values"""
		c = self.ch('ne')
		xs = self.nodes(g) if c == 'n' else self.edges(g)
		if len(xs) < 2:
			return
		table = self.p(g)['na' if c == 'n' else 'ea']
		a, b = self.rng.sample(xs, 2)
		va, vb = table[a]['val'], table[b]['val']
		for x, v in ((a, vb), (b, va)):
			if not self.broken():
				self.w.do(dict(op='set', g=g, c=c, x=x, f='val', v=v, sd=False, how='set'))

	def item(self, g):
		c = 'e' if self.edges(g) and self.coin() else 'n'
		xs = self.nodes(g) if c == 'n' else self.edges(g)
		return (c, self.ch(xs)) if xs else (None, None)

	def freeze(self, g):
		c, x = self.item(g)
		if c:
			return self.w.do(dict(op='freeze', g=g, c=c, x=x, on=self.coin(0.65)))

	def set(self, g, f=None):
		c, x = self.item(g)
		if c:
			f = f or self.ch(['val', 'val', 'lab', 'sty', 'sty', 'p'])
			v = self.ch({'val': self.vals, 'lab': self.labs, 'sty': ['A', 'B', 'D', 'F'] + ['!'] * self.bad, 'p': self.vals, 'q': self.vals}[f])
			return self.w.do(dict(op='set', g=g, c=c, x=x, f=f, v=v, sd=self.coin(0.4), how=self.ch(['set', 'item'])))

	def gset(self, g):
		"""a removed node or edge is changed"""
		cands = self.w.gone_nodes + [x for x in self.w.gone_edges if x.graph is None]
		if cands:
			f = self.ch(['val', 'val', 'lab', 'frz'])
			v = self.ch({'val': self.vals, 'lab': self.labs, 'frz': ['y', 'y', 'n']}[f])
			return loose(self.w, dict(op='gset', g=g, o=self.w.reg(self.ch(cands)), f=f, v=v))

	def restyle(self, g):
		c, x = self.item(g)
		if c:
			p = self.p(g)
			if (p['na'] if c == 'n' else p['ea'])[x]['sty'] != '-':
				return self.w.do(dict(
					op='restyle', g=g, c=c, x=x, how=self.ch(['colour', 'reset', 'complement']), col=self.ch(['orange', 'purple', 'brown']),
					ts=self.rng.randrange(5, 30)
				))

	def copy(self, g, how=None):
		g2 = self.fresh()
		before = [None]

		def extra(value):
			dig = [ob.digest(self.w.graphs[g]), ob.digest(self.w.graphs[g2]) if g2 in self.w.graphs else '-']
			if how[:6] == 'pickle' and self.coin(.3):
				# the pickle read where texts hash differently
				dig += elsewhere.ask(what='pickled graph', pickle=pickle.dumps(self.w.graphs[g], protocol=int(how[6:])).hex())
			return dict(dig=dig)
		how = how or self.ch(HOWS)
		return self.w.do(dict(op='copy', g=g, g2=g2, how=how), extra)

	def filter(self, g, k=None):
		ns = self.nodes(g)
		k = self.rng.randrange(0, min(4, len(ns)) + 1) if k is None else k
		chosen = self.rng.sample(ns, k)
		if chosen and self.coin(0.1):
			chosen.append(chosen[0])
		g2 = self.fresh()

		def extra(value):
			return dict(dig=[ob.declarations(self.w.graphs[g]), ob.declarations(self.w.graphs[g2]) if g2 in self.w.graphs else [[], []]])
		by = self.ch([[self.by() for _ in chosen]] * 2 + [['name' for _ in chosen]])
		return self.w.do(dict(
			op='filter', g=g, g2=g2, names=chosen, by=by, **{'as': self.ch(['list', 'tuple', 'none'] + ['set', 'keys'] * (by == ['name'] * len(by)))},
			dir=self.ch(['to', 'from', 'to_and_from', 'none', 'default']), typ=self.ch(['include', 'exclude', 'default'])
		), extra)

	def description(self, g=None, bad=0.1):
		nl = self.coin(0.25)
		k = self.rng.randrange(0, 5)
		known = self.nodes(g) if g else []
		pool = known + self.names if self.coin() else self.names
		names_ = []
		for _ in range(k):
			n = self.ch(pool)
			if n not in names_:
				names_.append(n)
		nd = [dict(name=n, a=plain() if nl else dict(self.attrs(), par={}), sd=self.coin(0.4)) for n in names_]
		ends = names_ + known
		ed = []
		if ends:
			for _ in range(self.rng.randrange(0, 5)):
				two = self.coin(0.3)
				b = self.coin(bad)
				s, e = self.ch(ends), self.ch(ends)
				if self.coin(0.03):
					e = 's:nowhere'
				ed.append(dict(
					s=s, e=e, r='n' if two else self.ch(self.ids), a=plain() if two else dict(self.attrs(), par={}),
					two=two, bad=b, sd=self.coin(0.4)
				))
		return dict(nd=nd, ed=ed, nl=nl, tuples=self.coin(.3))

	def form(self):
		return self.ch(['itself'] * 5 + list(FORMS))

	def append(self, g, bad=0.1):
		d = self.description(g, bad)
		e = dict(op='append', g=g, form=self.form(), **d)
		e['ed'] = [dict(x, bad=bool(x['bad'])) for x in d['ed']]
		desc_event = dict(e, ed=[dict(x, bad=(self.ch(list(MALFORMED)) if x['bad'] else 0)) for x in d['ed']])
		w = self.w
		desc = w.describe(desc_event)
		if self.coin(.4):
			# overrides for nodes and edges, of this graph or of no graph
			looks = [lambda: dict(text_size=20), lambda: dict(shape='oval', font='courier'), lambda: NodeStyle(text_size=9)]
			some = list(dict.fromkeys([x['name'] for x in d['nd']] + (self.nodes(g) or [])))[:4]
			if self.coin(.7):
				desc['node_styles'] = {untok(n): self.ch(looks)() for n in some if self.coin(.6)}
			if self.coin(.6):
				desc['node_colours'] = {untok(n): self.ch(['red', 'blue']) for n in some if self.coin(.6)}
			named = [(untok(x['s']), untok(x['e'])) for x in d['ed'] if not x['bad']]
			if named and self.coin(.6):
				desc['edge_styles'] = {k: self.ch([dict(text_size=20), EdgeStyle(line_width=3)]) for k in named if self.coin(.6)}
			if named and self.coin(.6):
				desc['edge_colours'] = {k: self.ch(['red', 'blue']) for k in named if self.coin(.6)}
		self.given.append((desc, describe_repr(desc)))    # nothing given earlier may change either
		target = w.graphs[g]
		value, res = guarded(lambda: target.append(FORMS[e['form']](desc)))
		res['o'] = w.reg(value) if isinstance(value, Graph) else '-'
		e['res'] = res
		e['src'] = [esc(' | '.join(before for _, before in self.given)), esc(' | '.join(describe_repr(x) for x, _ in self.given))]
		w.finish(e, value)
		return value, res

	def adorn(self, g, node=None):
		"""a description that only gives overrides"""
		ow = next((e['ow'] for e in self.w.events if e['op'] == 'new'), 'n') == 'y'
		ns, es = self.nodes(g), self.edges(g)
		d = dict(nodes=[], edges=[])
		def some(seq):
			return self.rng.sample(seq, min(len(seq), self.rng.randrange(1, 3)))
		if node is not None:
			ns = [node]
		if ns and (node is not None or self.coin(.7)):
			d['node_styles'] = {untok(n): self.ch([dict(text_size=20), dict(shape='oval', font='courier'), dict(fill_colour='gold')]) for n in some(ns)}
		if ow and ns and self.coin(.4):
			d['node_colours'] = {untok(n): self.ch(['red', 'blue']) for n in some(ns)}
		if ow and es and self.coin(.6):
			keys = [self.w.graphs[g].edges_dict[k].id for k in self.w.graphs[g].edges_dict]
			d['edges'] = [[k[0], k[1], {} if k[2] is None else dict(id=k[2])] for k in some(keys)]
			for t, v in (('edge_styles', [dict(line_width=3), dict(text_size=5)]), ('edge_colours', ['red', 'blue'])):
				d[t] = {tuple(x[:2]) + (x[2].get('id'),): EdgeStyle(**self.ch(v)) if t == 'edge_styles' else self.ch(v) for x in some(d['edges'])}
		if self.coin(.2):
			d[self.ch(['global_node_style', 'graph_node_style'])] = dict(text_size=self.ch([9, 15]))
		if ow and self.coin(.2):
			d[self.ch(['global_edge_style', 'graph_edge_style'])] = EdgeStyle(line_width=7)
		graph = self.w.graphs[g]
		value, res = guarded(lambda: graph.append(d))
		res['o'] = '-'
		self.w.finish(dict(op='adorn', g=g, res=res), None)

	def append_graph(self, g, g2):
		e = dict(op='append_graph', g=g, g2=g2, form=self.form(), src=['-', '-'])
		if g == g2:
			return self.w.do(e)
		before = self.described(g2)
		return self.w.do(e, lambda value: dict(src=[before, self.described(g2)]))

	def build(self, g):
		before = self.described(g)
		return self.w.do(dict(op='build', g=g, g2=self.fresh(), src=['-', '-'], how=self.ch(['graph', 'dict', 'from_dict', 'append', 'described'])), lambda value: dict(src=[before, self.described(g)]))

	def described(self, g):
		"""what a graph's own description says, overrides included"""
		text, res = guarded(lambda: describe_repr(self.w.graphs[g].__graph__()))
		return esc(text) if res['k'] == 'ok' else '?'

	def sum(self, g, g2, fn=None):
		fn = fn or self.ch(['plus', 'default', 'tagged', 'tagged'])
		plus = {}
		if fn != 'tagged':
			a, b = self.p(g), self.p(g2)
			for table in ('na', 'ea'):
				for k in a[table]:
					if k in b[table]:
						x, y = a[table][k]['val'], b[table][k]['val']
						if x != 'n' and y != 'n':
							try:
								plus[x + '|' + y] = tok(untok(x) + untok(y))
							except TypeError:
								fn = 'tagged'
		return self.w.do(dict(op='sum', g=g, g2=g2, g3=self.fresh(), fn=fn, plus=plus if fn != 'tagged' else {}))

	def render(self, g):
		return self.w.do(dict(op='render', g=g))

	def query(self, g, q, which=None, **kw):
		return self.w.observe(dict(op='query', g=g), lambda: q(self.w.graphs[g], which), **kw)

	def mutate(self, g, weights):
		ops = [x for x, k in weights.items() for _ in range(k)]
		op = self.ch(ops)
		if op == 'stale':
			return self.disconnect(g, stale=True)
		return getattr(self, op)(g)


def attributes_of(x):
	return dict(lab=tok(x.raw_label), val=tok(x.value), sty=style_token(x.style), frz=bool(x.is_frozen), par=params_of(x))


def loose(w, e):
	"""a change of an object outside every graph, with its attributes before and after"""
	x = w.obj(e['o'])
	return w.do(dict(e, at=attributes_of(x)), lambda value: dict(at2=attributes_of(x)))


def edge_key_of(s, e, r):
	return f'{s}>{e}#{r}'


def describe_repr(d):
	def show(x):
		if isinstance(x, dict):
			return '{' + ','.join(f'{k!r}:{show(v)}' for k, v in x.items()) + '}'
		if isinstance(x, (list, tuple)):
			return '[' + ','.join(show(v) for v in x) + ']'
		if isinstance(x, (NodeStyle, EdgeStyle)):
			return x.get_graphviz_str()
		return repr(x)
	return show(d)


# ---------------------------------------------------------------- graphs for queries
def small_digraphs(n, limit=None, rng=None):
	"""all digraphs with self-loops on n nodes, as lists of (i, j)"""
	cells = [(i, j) for i in range(n) for j in range(n)]
	masks = range(2 ** len(cells))
	if limit is not None and limit < len(masks):
		masks = [rng.randrange(2 ** len(cells)) for _ in range(limit)]
	for m in masks:
		yield [c for b, c in enumerate(cells) if m >> b & 1]


def build_graph(gen, n, pairs, names_, ids=None, shuffle=True, plainly=False):
	"""a graph made directly (not as recorded events) and then introduced by one 'load' event; its labels and values repeat"""
	g = gen.fresh()
	graph = Graph(strict=False)
	names_ = list(names_)[:n]
	decorate = not plainly and gen.rng.random() < .5

	def decoration():
		return dict(label=gen.ch([None, 'x', 'x', 'y', '', 0]), value=gen.ch([None, 0, 1, 'v', 'v'])) if decorate else {}
	for t in names_:
		graph.add_node(name=untok(t), **decoration())
	pairs = list(pairs)
	if shuffle:
		gen.rng.shuffle(pairs)
	for k, (i, j) in enumerate(pairs):
		graph.connect(untok(names_[i]), untok(names_[j]), id=None if ids is None else ids[k], if_edge_exists='ignore', **decoration())
	gen.w.graphs[g] = graph
	e = dict(op='load', g=g, res=dict(k='ok', x='-', w=0, o='-'))
	gen.w.finish(e, None)
	return g


def random_pairs(rng, n):
	kind = rng.randrange(6)
	pairs = []
	if kind == 0:      # sparse
		for _ in range(rng.randrange(0, n + 1)):
			pairs.append((rng.randrange(n), rng.randrange(n)))
	elif kind == 1:    # dag
		for _ in range(rng.randrange(0, 3 * n)):
			i, j = rng.randrange(n), rng.randrange(n)
			if i != j:
				pairs.append((min(i, j), max(i, j)))
	elif kind == 2:    # reversed dag and a few cycles
		for _ in range(rng.randrange(0, 2 * n)):
			i, j = rng.randrange(n), rng.randrange(n)
			pairs.append((max(i, j), min(i, j)))
		if rng.random() < .5:
			pairs.append((0, n - 1))
	elif kind == 3:    # several cycles joined
		perm = list(range(n))
		rng.shuffle(perm)
		k = 0
		while k < n:
			m = rng.randrange(1, 5)
			c = perm[k:k + m]
			if len(c) > 1 or rng.random() < .3:
				pairs += [(c[x], c[(x + 1) % len(c)]) for x in range(len(c))]
			k += m
		for _ in range(rng.randrange(0, n)):
			pairs.append((rng.randrange(n), rng.randrange(n)))
	elif kind == 4:    # tree with shortcuts
		for j in range(1, n):
			pairs.append((rng.randrange(j), j))
		for _ in range(rng.randrange(0, 4)):
			i, j = sorted((rng.randrange(n), rng.randrange(n)))
			if i != j:
				pairs.append((i, j))
	else:              # dense
		for i in range(n):
			for j in range(n):
				if rng.random() < .4:
					pairs.append((i, j))
	perm = list(range(n))
	if rng.random() < .7:
		rng.shuffle(perm)
	return [(perm[i], perm[j]) for i, j in pairs]


STRUCT = dict(add_node=8, connect=14, disconnect=3, strip=1, rm_node=4, add_obj=2)


def without_ranks(q):
	"""ranks follow the numbers that a graph gave to its own nodes"""
	def asked(g, which=None):
		r = q(g, which)
		if q is ob.q07:
			for x in r['n'].values():
				x['rank'] = []
		return r
	return asked


def query_histories(rng, q, n_small, n_random, n_mutating, n4=300, NAMES=NAMES):
	"""graphs to be asked q: every digraph on up to n_small nodes, random larger ones, and ones asked between mutations"""
	hid = 0
	batch = []
	for n in range(0, n_small + 1):
		for pairs in small_digraphs(n):
			names_ = NAMES[:n] if n < 3 or rng.random() < .5 else ['s:b', 's:a', 's:c', 's:d'][:n]
			gen = Gen(rng, pars=False)
			# parallel edges on some of the pairs
			extra = [c for c in pairs if rng.random() < .15]
			allp = pairs + extra
			g = build_graph(gen, n, allp, names_, ids=list(range(len(allp))))
			gen.query(g, q)
			hid += 1
			yield gen.w.history(f'small-{n}-{hid}')
	for pairs in small_digraphs(4, n4, rng):
		gen = Gen(rng, pars=False)
		g = build_graph(gen, 4, pairs, rng.sample(LETTERS, 4))
		gen.query(g, q)
		hid += 1
		yield gen.w.history(f'four-{hid}')
	for k in range(n_random):
		n = rng.randrange(4, 11)
		gen = Gen(rng, pars=False)
		pairs = random_pairs(rng, n)
		pairs += [c for c in pairs if rng.random() < .2]
		g = build_graph(gen, n, pairs, rng.sample(LETTERS if rng.random() < .5 else NAMES, n), ids=rng.choice([list(range(len(pairs)))] * 2 + [None, [rng.choice(ODD_IDS) for _ in pairs]]))
		gen.query(g, q)
		yield gen.w.history(f'random-{k}')
	for k in range(n_mutating):
		gen = Gen(rng, names=LETTERS[:8] if rng.random() < .7 or NAMES is LETTERS else NAMES, pars=False)
		gen.ctor = False
		gen.obj_same_graph = True
		g = gen.new(ow='n', conv=False)
		for _ in range(rng.randrange(3, 8)):
			gen.add_node(g, pol='ignore')
		asked = q
		if rng.random() < .3:
			# nodes that another graph made and numbered, some of them with the numbers of nodes of this one
			asked = without_ranks(q)
			gen.obj_same_graph = False
			h = gen.new(ow='n', conv=False)
			here = gen.nodes(g)
			for name in rng.sample([x for x in gen.names if x not in here], min(3, len(gen.names) - len(here))):
				if not gen.broken():
					gen.add_node(h, name, pol='ignore', how='graph')
				if not gen.broken() and name in gen.nodes(h):
					gen.rm_node(h)
			for _ in range(3):
				if not gen.broken():
					gen.add_obj(g)
		for _ in range(rng.randrange(5, 14)):
			if not gen.broken():
				gen.connect(g, pol='ignore')
		gen.query(g, asked)
		for _ in range(rng.randrange(2, 6)):
			if gen.broken():
				break
			for _ in range(rng.randrange(1, 4)):
				if not gen.broken():
					gen.mutate(g, STRUCT)
			if gen.broken():
				break
			if gen.coin(.15):
				gen.copy(g)
				g = f'g{gen.count}' if f'g{gen.count}' in gen.w.graphs else g
			gen.query(g, asked)
		yield gen.w.history(f'mutating-{k}')


def large_shapes(back, rays):
	"""name, number of nodes, edges, nodes to ask: longer than Python's recursion limit, or with too many paths to walk them all"""
	n = 1100
	chain = [(i, i + 1) for i in range(n - 1)]
	yield 'chain', n, chain, [0, 1, n // 2, n - 1]
	yield 'chain listed backwards', back, [(j, i) for i, j in chain[:back - 1]], [0, back // 2, back - 1]
	yield 'cycle', n, chain + [(n - 1, 0)], [0, n // 3]
	yield 'ladder of diamonds', 62, [(2 * i + a, 2 * i + 2 + b) for i in range(30) for a in (0, 1) for b in (0, 1)], [0, 1, 31, 60, 61]
	yield 'ladder listed backwards', 62, [(2 * i + 2 + b, 2 * i + a) for i in range(30) for a in (0, 1) for b in (0, 1)], [0, 30, 61]
	yield 'all forward edges', 28, [(i, j) for i in range(28) for j in range(i + 1, 28)], [0, 13, 27]
	yield 'complete', 13, [(i, j) for i in range(13) for j in range(13)], [0, 6, 12]
	yield 'star', rays, [(0, i) for i in range(1, rays)] + [(0, 5)], [0, 1, 5, rays - 1]
	yield 'star inwards', rays, [(i, 0) for i in range(1, rays)], [0, 1, rays - 1]
	yield 'cycles joined', 48, [(i, i + 1 if i % 8 < 7 else i - 7) for i in range(48)] + [(8 * i + 3, 8 * i + 12) for i in range(4)], [0, 3, 8, 20, 47]
	yield 'tree', 63, [((i - 1) // 2, i) for i in range(1, 63)], [0, 1, 30, 62]
	yield 'unconnected', 70, [], [0, 69]


def large_histories(rng, q):
	# finding the roots of a chain listed backwards takes the code cubic time
	for name, n, pairs, asked in large_shapes(150 if q in (ob.q06, ob.q19) else 1100, 100 if q is ob.q07 else 300):
		if q is ob.q07 and n > 100:
			continue
		gen = Gen(rng, pars=False)
		names_ = ['s:n%d' % i for i in range(n)]
		g = build_graph(gen, n, pairs, names_, ids=range(len(pairs)) if name == 'star' else None, shuffle=False, plainly=True)
		gen.query(g, q, [names_[i] for i in asked], seconds=60)
		yield gen.w.history(name)
		if gen.w.events[-1]['res']['k'] == 'timeout':
			return


def long_history(rng, *ops):
	"""operations on whole graphs longer than the recursion limit"""
	gen = Gen(rng, pars=False)
	n = 1050
	pairs = [(i, i + 1) for i in range(n - 1)]
	g = build_graph(gen, n, pairs + ([(n - 1, 0)] if rng.random() < .5 else []), ['s:n%d' % i for i in range(n)], shuffle=False, plainly=True)
	for op in ops:
		if gen.broken():
			break
		g2 = gen.fresh()
		if op == 'append_graph':
			gen.w.graphs[g2] = Graph()
			gen.w.finish(dict(op='load', g=g2, res=dict(k='ok', x='-', w=0, o='-')), None)
			gen.append_graph(g2, g)
		elif op == 'sum':
			gen.sum(g, g, 'default')
		elif op == 'filter':
			gen.w.do(dict(op='filter', g=g, g2=g2, names=['s:n500'], by=['name'], dir='to_and_from', typ='include'))
		elif op == 'build':
			gen.w.do(dict(op='build', g=g, g2=g2, src=['-', '-'], how='dict'))
		elif op == 'sim':
			gen.w.graphs[g2] = gen.w.graphs[g].copy()
			gen.w.finish(dict(op='load', g=g2, res=dict(k='ok', x='-', w=0, o='-')), None)
			if not gen.broken():
				sim(gen, g, g2, every=False)
		else:
			gen.copy(g, how=op)
		for x in [x for x in gen.graphs() if x != g]:
			gen.w.graphs.pop(x)
			gen.w.snaps.pop(x)
		if gen.w.events[-1]['res']['k'] == 'timeout':
			break
	yield gen.w.history('long')


def hub_histories(rng, rays=130):
	"""nodes with many edges lose some or all of them"""
	for what in ('rm_node', 'strip', 'disconnect'):
		gen = Gen(rng, pars=False)
		names_ = ['s:hub', 's:rim'] + ['s:n%d' % i for i in range(rays)]
		pairs = [(0, 0), (0, 1), (1, 0)] + [rng.choice([(0, i + 2), (i + 2, 0)]) for i in range(rays)] + [(1, i + 2) for i in range(0, rays, 5)]
		g = build_graph(gen, rays + 2, pairs, names_, shuffle=rng.random() < .5, plainly=True)
		if what == 'rm_node':
			gen.w.do(dict(op='rm_node', g=g, name='s:hub', by=gen.ch(['name', 'obj'])))
		elif what == 'strip':
			gen.w.do(dict(op='strip', g=g, name='s:hub'))
		else:
			for k in rng.sample(gen.edges(g), 3):
				if not gen.broken():
					gen.w.do(dict(op='disconnect', g=g, key=k, stale=False, how=gen.ch(['self', 'graph'])))
		yield gen.w.history(f'hub-{what}')


# ---------------------------------------------------------------- G01, G02, G14: mutation histories
def structure_histories(rng, count, length=(8, 26), weights=None, **kw):
	weights = weights or dict(add_node=6, connect=8, disconnect=3, strip=1, rm_node=3, add_obj=2, stale=1, copy=1, set=1, freeze=1)
	for k in range(count):
		gen = Gen(rng, **kw)
		gen.foreign = gen.bad = True
		if rng.random() < .3:
			gen.names = gen.names[:3]
		gs = [gen.new()]
		if rng.random() < .3:
			gs.append(gen.new())
		for _ in range(rng.randrange(*length)):
			if gen.broken():
				break
			gen.mutate(gen.ch(gen.graphs()), weights)
			if len(gen.graphs()) > 4:
				weights = dict(weights, copy=0)
		yield gen.w.history(f'history-{k}')


# ---------------------------------------------------------------- G08
def twin_histories(rng, count):
	"""copies of copies at any point of a life; then the same operations on original and copy, then different ones"""
	mut = dict(add_node=4, connect=6, disconnect=2, strip=1, rm_node=2, add_obj=1, set=3, touch=2, freeze=2, restyle=3, render=1, stale=1, adorn=1, gset=1)
	for k in range(count):
		gen = Gen(rng, names=NAMES if rng.random() < .6 else LETTERS[:5])
		gen.obj_same_graph = gen.tips = True
		gen.w.watch_overrides = k % 2 == 0
		kw = {}
		if rng.random() < .4:
			kw = rng.choice([
				dict(tooltip='tip "x"', direction='TB'), dict(label=None), dict(label='my graph', label_location='top', font_size=14),
				dict(background_colour='red', font='courier'), dict(label_background_colour='yellow'), dict(nodesep=2, splines='ortho'),
				dict(stylist='random'), dict(colour_scheme='pastel15'), dict(label_url='http://x', label_colour='red'),
				dict(node_style=dict(shape='auto')), dict(edge_style=dict(line_width=4)),
			])
		g = gen.new(conv=rng.random() < .25, **kw)
		for _ in range(rng.randrange(0, 16)):
			gen.mutate(g, mut)
		for _ in range(rng.randrange(1, 4)):
			if gen.broken():
				break
			src = gen.ch(gen.graphs())
			lost = None
			if rng.random() < .2 and gen.nodes(src):
				# a node with overrides goes before the copy is made and comes back afterwards, in both
				lost = gen.ch(gen.nodes(src))
				gen.adorn(src, lost)
				gen.w.do(dict(op='rm_node', g=src, name=lost, by='name'))
				if gen.broken():
					break
			_, res = gen.copy(src)
			dst = f'g{gen.count}'
			if res['k'] != 'ok' or gen.broken():
				break
			if lost is not None:
				for x in (src, dst):
					gen.w.do(dict(op='add_node', g=x, name=lost, a=plain(), pol='ignore', how='graph', kind='ok', sd=False))
					gen.render(x)
					if gen.broken():
						break
			if lost is not None or rng.random() < .5:
				if not gen.broken():
					twin_ops(gen, src, dst)
			for _ in range(rng.randrange(1, 6)):
				if not gen.broken():
					gen.mutate(gen.ch([src, dst, dst]), mut)
		yield gen.w.history(f'twin-{k}')


def twin_ops(gen, a, b):
	"""the same random operations on both, then one comparison of everything observable"""
	import random as _r
	seed = gen.rng.randrange(10 ** 9)
	keep = gen.rng
	mut = dict(add_node=4, connect=6, disconnect=2, strip=1, rm_node=2, set=4, touch=1, freeze=1, restyle=1, render=1, adorn=1)
	# removed objects belong to one side only, so re-adding objects is left out here
	n = keep.randrange(1, 7)
	for g in (a, b):
		gen.rng = _r.Random(seed)
		for _ in range(n):
			if gen.broken():
				break
			gen.mutate(g, mut)
	gen.rng = keep
	if not gen.broken():
		w = gen.w
		w.finish(dict(op='twin', g=a, g2=b, res=dict(k='ok', x='-', w=0, o='-'), dig=[ob.digest(w.graphs[a]), ob.digest(w.graphs[b])]), None)


# ---------------------------------------------------------------- G09
def filter_histories(rng, count, n_small=3):
	for n in range(0, n_small + 1):
		for pairs in small_digraphs(n, 200, rng):
			gen = Gen(rng, pars=False)
			g = build_graph(gen, n, pairs + [c for c in pairs if rng.random() < .2], NAMES[:n], ids=list(range(2 * n * n)))
			for chosen in itertools.chain.from_iterable(itertools.combinations(gen.nodes(g), k) for k in (0, 1, 2)):
				if n > 2 and rng.random() < .55:
					continue
				gen.w.do(dict(
					op='filter', g=g, g2='f', names=list(chosen), by=[gen.ch(['name', 'obj']) for _ in chosen],
					dir=gen.ch(['to', 'from', 'to_and_from', 'none', 'default']), typ=gen.ch(['include', 'exclude', 'default'])
				))
				gen.w.graphs.pop('f', None)
				gen.w.snaps.pop('f', None)
			yield gen.w.history(f'small-{n}')
	for k in range(count):
		gen = Gen(rng)
		gen.obj_same_graph = gen.tips = gen.foreign = True
		g = gen.new()
		for _ in range(rng.randrange(4, 24)):
			gen.mutate(g, dict(add_node=5, connect=8, rm_node=1, disconnect=1, add_obj=1, set=4, freeze=1, render=1 if rng.random() < .1 else 0))
		for _ in range(rng.randrange(1, 5)):
			if gen.broken():
				break
			gen.filter(gen.ch(gen.graphs()))
			for _ in range(rng.randrange(0, 4)):
				if not gen.broken():
					gen.mutate(gen.ch(gen.graphs()), dict(STRUCT, touch=8, restyle=2, adorn=2))
		yield gen.w.history(f'random-{k}')


# ---------------------------------------------------------------- G10
def conversion_histories(rng, count):
	for k in range(count):
		gen = Gen(rng, names=NAMES if rng.random() < .6 else LETTERS[:5])
		gen.obj_same_graph = True
		gen.bad = rng.random() < .3
		g = gen.new(conv=False)
		if rng.random() < .5:
			gen.new(conv=False)
		for _ in range(rng.randrange(2, 18)):
			gen.mutate(gen.ch(gen.graphs()), dict(add_node=5, connect=8, rm_node=1, disconnect=1, add_obj=1, set=4, freeze=1, render=1 if rng.random() < .2 else 0))
		for _ in range(rng.randrange(1, 5)):
			if gen.broken():
				break
			c = rng.random()
			if c < .35:
				gen.build(gen.ch(gen.graphs()))
			elif c < .7:
				gen.append(gen.ch(gen.graphs()))
			else:
				gs = gen.graphs()
				a, b = gen.ch(gs), gen.ch(gs)
				if a != b or rng.random() < .2:
					gen.append_graph(a, b)
		yield gen.w.history(f'conversion-{k}')


# ---------------------------------------------------------------- G11
def sum_histories(rng, count):
	vals = ['n', 'n', 'i:0', 'i:5', 'i:-2', 'i:7', 'f:0.0', 'f:1.5', 'b:False']
	svals = ['n', 'n', 's:', 's:v', 's:w']
	lvals = ['n', 'j:%5B%5D', 'j:%5B1%5D']
	for k in range(count):
		names = LETTERS[:3] if rng.random() < .5 else NAMES[:7]
		gen = Gen(rng, names=names, vals=rng.choice([vals, vals, svals, lvals]), labs=['n', 'n', 's:L1', 's:L2'] + names[:1], pars=rng.random() < .2)
		gen.obj_same_graph = True
		gs = [gen.new(conv=False), gen.new(conv=False)]
		for g in gs:
			for _ in range(rng.randrange(0, 12)):
				gen.mutate(g, dict(add_node=6, connect=8, rm_node=1, disconnect=1, set=2, freeze=1, render=1 if rng.random() < .1 else 0))
		for _ in range(rng.randrange(1, 4)):
			if gen.broken():
				break
			a = gen.ch(gen.graphs())
			b = a if rng.random() < .1 else gen.ch(gen.graphs())
			if tagged(gen, a) or tagged(gen, b):
				continue
			gen.sum(a, b)
		yield gen.w.history(f'sum-{k}')


def tagged(gen, g):
	p = gen.p(g)
	return any(x['val'].startswith('C(') for t in ('na', 'ea') for x in p[t].values())


# ---------------------------------------------------------------- G14
def frozen_histories(rng, count):
	w = dict(add_node=5, connect=6, freeze=5, set=9, copy=1, rm_node=2, add_obj=2, disconnect=1, append=1, filter=1, gset=3)
	for k in range(count):
		gen = Gen(rng, names=LETTERS[:3], ids=['n', 'n', 'i:0'], styles=['-', '-', 'A', 'B'], pars=False)
		gen.bad = True
		gen.new(ow='y' if rng.random() < .35 else 'n')
		weights = dict(w)
		for _ in range(rng.randrange(10, 30)):
			if gen.broken():
				break
			if len(gen.graphs()) > 3:
				weights.update(copy=0, filter=0)
			gen.mutate(gen.ch(gen.graphs()), weights)
		yield gen.w.history(f'frozen-{k}')


# ---------------------------------------------------------------- G20
def order_histories(rng, count):
	w = dict(add_node=8, connect=6, rm_node=3, add_obj=4, disconnect=1, set=4)
	for k in range(count):
		gen = Gen(rng, names=NAMES if rng.random() < .5 else LETTERS[::-1], pars=False)
		gen.ctor = False
		gen.obj_same_graph = True
		g = gen.new(conv=False)
		gs = [g]
		stranger = Graph()
		strangers = [stranger.add_node(untok(t)) for t in rng.sample(gen.names, 3)]
		for _ in range(rng.randrange(1, 5)):
			for _ in range(rng.randrange(1, 9)):
				if not gen.broken():
					gen.mutate(gen.ch(gs), w)
			if gen.broken():
				break
			if len(gs) < 3 and gen.coin(.3):
				if gen.coin(.6):
					gen.copy(gen.ch(gs))
				else:
					gen.filter(gen.ch(gs))
				if f'g{gen.count}' in gen.w.graphs:
					gs.append(f'g{gen.count}')
				if gen.broken():
					break
			x = gen.ch(gs)
			others = [n for y in gs if y != x for n in gen.w.graphs[y].nodes[:6]] + strangers
			gen.w.observe(dict(op='cmp', g=x), lambda: ob.cmp20(gen.w.graphs[x], gen.w.reg, others))
			objs = [o for o in gen.w.reg.keep if isinstance(o, Node)]
			rng.shuffle(objs)
			gen.w.observe(dict(op='in', g=x), lambda: ob.in20(gen.w.graphs[x], gen.w.reg, NAMES + LETTERS, objs[:30]))
		yield gen.w.history(f'order-{k}')


# ---------------------------------------------------------------- G21
def similar_histories(rng, count):
	vals = ['n', 's:v', 's:w', 'i:1', 'i:2', 's:1', 's:None', 'j:%5B1%5D', 's:%5B1%5D', 'f:nan', 'f:0.5', 'a:1.2', 'a:1.3', 'a:1.2.3', 'y:1', 'y:2']
	for k in range(count):
		gen = Gen(rng, names=LETTERS[:4], ids=['n', 'n', 'i:0', 's:x'], vals=vals)
		gen.obj_same_graph = True
		g = gen.new(ow='y', conv=False)
		for _ in range(rng.randrange(0, 14)):
			gen.mutate(g, dict(add_node=5, connect=6, set=2, rm_node=1))
		for _ in range(rng.randrange(1, 4)):
			if gen.broken():
				break
			c = rng.random()
			if c < .6:
				gen.copy(gen.ch(gen.graphs()), how=gen.ch(['copy', 'pickle4', 'deepcopy']))
			elif c < .8:
				gen.build(gen.ch(gen.graphs()))
			else:
				h = gen.new(ow='y', conv=False)
				for _ in range(rng.randrange(0, 6)):
					gen.mutate(h, dict(add_node=6, connect=5))
			if gen.broken():
				break
			sim(gen, *rng.sample(gen.graphs(), 2) if len(gen.graphs()) > 1 else (g, g))
			for _ in range(rng.randrange(1, 4)):
				# one small difference (or its repair)
				x = gen.ch(gen.graphs())
				gen.mutate(x, dict(add_node=2, connect=2, set=5, rm_node=1, disconnect=1, restyle=2, move=3, exchange=3))
				if gen.broken():
					break
				others = [y for y in gen.graphs() if y != x] or [x]
				sim(gen, x, gen.ch(others))
			if gen.broken():
				break
		yield gen.w.history(f'similar-{k}')


def sim(gen, a, b, every=True):
	A, B = gen.w.graphs[a], gen.w.graphs[b]
	if not every:
		gen.w.observe(dict(op='sim', g=a, g2=b), lambda: ob.sim21(A, B, [], []))
		return
	ns = [(x, y) for x in A.nodes for y in B.nodes if x.name == y.name or gen.coin(.15)][:8]
	ea = [e for n in A.nodes for e in n.outward_edges_dict.values()]
	eb = [e for n in B.nodes for e in n.outward_edges_dict.values()]
	es = [(x, y) for x in ea for y in eb if key_token(x.id) == key_token(y.id) or gen.coin(.1)][:8]
	gen.w.observe(dict(op='sim', g=a, g2=b), lambda: ob.sim21(A, B, ns, es))
