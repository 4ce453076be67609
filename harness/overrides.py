"""Histories about style and colour overrides (G24)."""
import re

from drivers import *
from colouration import Colour
from replay import path

COLOURS = ['red', 'blue', 'green', 'orange', 'purple', 'black', 'white', '#123456', 'gold']
NODE_ATTRS = {'colour': 'main', 'fill_colour': 'fill', 'border_colour': 'border', 'text_colour': 'text', 'font': 'font', 'text_size': 'size',
	'shape': 'shape', 'shape_style': 'sstyle'}
EDGE_ATTRS = {'colour': 'main', 'text_colour': 'text', 'font': 'font', 'text_size': 'size', 'arrow_size': 'arrow', 'label_style': 'lbl', 'line_width': 'width'}
NODE_DOT = {'color': 'border', 'fillcolor': 'fill', 'fontcolor': 'text', 'fontname': 'font', 'fontsize': 'size', 'shape': 'shape', 'style': 'sstyle'}
EDGE_DOT = {'fontcolor': 'text', 'fontname': 'font', 'fontsize': 'size', 'arrowsize': 'arrow', 'lblstyle': 'lbl', 'penwidth': 'width'}
NO_LOOK = {'none': 'none'}
FIELDS = {
	'n': dict(colour=COLOURS, fill_colour=COLOURS, border_colour=COLOURS, text_colour=COLOURS, font=['courier', 'times'], text_size=[7, 12, 20],
		shape=['circle', 'box', 'oval'], shape_style=['filled', 'dashed']),
	'e': dict(colour=COLOURS, text_colour=COLOURS, font=['courier', 'times'], text_size=[7, 12], arrow_size=[1, 2, 0.25], label_style=['above', 'below'],
		line_width=[2, 5, 0.5]),
}


def hexa(c, kind):
	return esc(Colour(c).get_hexadecimal(opacity=None if kind == 'n' else 1))


def look(style, kind):
	"""attribute -> token, from what the style shows"""
	if style is None:
		return NO_LOOK
	shown = dict(re.findall(r'"([^"]*)"="([^"]*)"', style.get_graphviz_str()))
	table = NODE_DOT if kind == 'n' else EDGE_DOT
	r = {a: esc(shown.get(k, '-')) for k, a in table.items()}
	r['main'] = esc(style.colour.get_hexadecimal(opacity=None if kind == 'n' else 1))
	return r


def part(d, kind):
	"""the same for the attributes named by a dictionary"""
	table = NODE_ATTRS if kind == 'n' else EDGE_ATTRS
	return {table[k]: hexa(v, kind) if 'colour' in k else esc(str(v)) for k, v in d.items()}


def fresh(kind, d):
	return NodeStyle(**d) if kind == 'n' else EdgeStyle(**d)


class OverGen:
	def __init__(self, rng):
		self.rng = rng
		self.graphs = {}
		self.given = []      # style objects and tables handed over, with the text they had
		self.held = {}       # style objects handed over as they are
		self.presets = dict(n=[], e=[])
		self.tables = []     # tables of node styles given before, which may be given again
		self.table_of = {}   # what was given for them
		self.ev = []
		self.count = 0
		self.short = rng.random() < .5
		self.names = ['a', 'b', 'c', 'd', 'ee', 0, 7] if self.short else ['alpha', 'b', 'gamma', 'd', 'x y', 0, 'node']
		self.ids = [None, None, None, 0, 'x', '', 1]
		self.more = []       # graphs made besides the one asked for
		self.shadow = {}     # what the driver knows: nodes, edges, overrides, permission

	def ch(self, seq):
		return seq[self.rng.randrange(len(seq))]

	def coin(self, p=.5):
		return self.rng.random() < p

	def style_dict(self, kind, most=3, auto=False):
		fields = FIELDS[kind]
		d = {k: self.ch(fields[k]) for k in self.rng.sample(list(fields), self.rng.randrange(1, most + 1))}
		if auto and self.short and 'shape' in d and self.coin():
			d['shape'] = 'auto'
		return d

	def event(self, e, fn):
		before = [s.get_graphviz_str() if not isinstance(s, dict) else describe_repr(s) for s in self.given]
		value, res = guarded(fn)
		after = [s.get_graphviz_str() if not isinstance(s, dict) else describe_repr(s) for s in self.given]
		res['o'] = '-'
		e['res'] = res
		e['given'] = [hashlib.sha1(repr(before).encode()).hexdigest()[:10], hashlib.sha1(repr(after).encode()).hexdigest()[:10]]
		self.ev.append(e)
		return value, res

	def wide(self, kind, same=False, k=None):
		"""a graph-wide style: (event field, argument)"""
		k = k or ('same' if same and self.coin(.7) else self.ch(['none', 'none', 'none', 'dict', 'dict', 'style']))
		if k == 'same':
			return dict(k='same'), None
		if k == 'none':
			return dict(k='none'), None
		d = self.style_dict(kind, 4, auto=kind == 'n' and k == 'dict')
		shown = dict(d, shape='circle') if d.get('shape') == 'auto' else d
		full = look(fresh(kind, shown), kind)
		arg = d if k == 'dict' else fresh(kind, d)
		self.given.append(arg)
		return dict(k=k, full=full, part=part(shown, kind)), arg

	def name(self):
		self.count += 1
		return f'g{self.count}'

	def new(self, gn=None, ge=None, ow=None):
		g = self.name()
		gn, n_arg = self.wide('n', k=gn)
		ge, e_arg = self.wide('e', k=ge)
		ow = ow or ('y' if self.coin(.7) else 'n')
		stylist = self.ch(['pensieve', 'pensieve', 'random'])

		def fn():
			self.graphs[g] = Graph(node_style=n_arg, edge_style=e_arg, style_overwrite_allowed=ow == 'y', stylist=stylist)
		_, res = self.event(dict(op='new', g=g, gn=gn, ge=ge, ow=ow), fn)
		self.shadow[g] = dict(nodes=[], edges=[], ns={}, nc={}, es={}, ec={}, ow=ow, stylist=stylist, gn=gn, ge=ge, n_arg=n_arg, e_arg=e_arg)
		return g

	def preset(self, kind, p=.35):
		if not self.coin(p):
			return None
		if self.presets[kind] and self.coin(.3):
			return self.ch(self.presets[kind])      # the same object for several nodes or edges
		s = fresh(kind, self.style_dict(kind, 3))
		self.presets[kind].append(s)
		self.hold(s)
		return s

	def hold(self, style):
		"""a style object the user knows: rendering may not change it"""
		self.given.append(style)
		self.held[id(style)] = style

	def append(self, g, node=None, edge=None):
		"""appends a description, with this node and this edge among what it describes"""
		sh = self.shadow[g]
		nodes, edges = {}, []
		picked = self.rng.sample(self.names, self.rng.randrange(1, 6))
		picked += [n for n in dict.fromkeys([node] if edge is None else edge[:2]) if n is not None and n not in picked and n not in sh['nodes']]
		for n in picked:
			nodes[n] = None if n in sh['nodes'] else self.preset('n')
		ends = list(nodes) + sh['nodes']
		for x in [edge] * (edge is not None) + [None] * self.rng.randrange(0, 7):
			x = x or (self.ch(ends), self.ch(ends), self.ch(self.ids))
			old = x in sh['edges'] or x in [y[0] for y in edges]
			style = None if old else self.preset('e')
			edges.append((x, style, not old and self.coin(.3)))
		ns, nc, es, ec = {}, {}, {}, {}
		pool = ends + (['nobody'] if self.coin(.2) else [])
		some = lambda seq: self.rng.sample(seq, self.rng.randrange(1, min(3, len(seq)) + 1))
		if self.tables and self.coin(.3):
			ns = self.ch(self.tables)
		elif self.coin(.6):
			for n in some(pool):
				ns[n] = self.node_style()
		if sh['ow'] == 'y':
			if self.coin(.4):
				for n in some(pool):
					nc[n] = self.ch(COLOURS)
			if edges and self.coin(.5):
				for x in some(edges):
					es[self.edge_ref(x[0])] = self.edge_style()
			if edges and self.coin(.4):
				for x in some(edges):
					ec[self.edge_ref(x[0])] = self.ch(COLOURS)
		self.describe(g, nodes, edges, ns, nc, es, ec, self.wide('n', True), self.wide('e', True))

	def node_style(self):
		"""an override of a node's style and the look it asks for: of some attributes, or as a style object of all"""
		d = self.style_dict('n', 4)
		if self.coin(.7):
			return d, part(d, 'n')
		return fresh('n', d), look(fresh('n', d), 'n')

	def edge_style(self):
		d = self.style_dict('e', 4)
		return d if self.coin() else fresh('e', d), look(fresh('e', d), 'e')

	def describe(self, g, nodes, edges, ns, nc, es, ec, wide_n=(dict(k='same'), None), wide_e=(dict(k='same'), None)):
		"""appends this description.  nodes: name -> style or None; edges: (triple, style or None, with a value?);
		ns: name -> (what is given, look); es: pair or triple -> (what is given, look)"""
		sh = self.shadow[g]
		desc = dict(nodes={n: {} if s is None else dict(style=s) for n, s in nodes.items()}, edges=[])
		nd = [dict(name=tok(n), look=look(s, 'n')) for n, s in nodes.items()]
		ed = []
		for (s, e, r), style, valued in edges:
			d = {} if r is None else dict(id=r)
			if style is not None:
				d['style'] = style
			if valued:
				d['value'] = self.ch([1, 2, 0.5, 'v'])
			desc['edges'].append([s, e, d])
			ed.append(dict(s=tok(s), e=tok(e), r=tok(r), look=look(style, 'e')))
		triples = [x[0] for x in edges]
		# two spellings of one edge in one table are ambiguous
		for table in (es, ec):
			seen = {}
			for k in list(table):
				t = self.target(k, triples)
				if t in seen:
					del table[k]
				seen[t] = 1
		if ns or self.coin(.3):
			desc['node_styles'] = self.table_of.setdefault(id(ns), {n: v[0] for n, v in ns.items()})
		if nc:
			desc['node_colours'] = {n: self.colour(c) for n, c in nc.items()}
		if es:
			desc['edge_styles'] = {k: v[0] for k, v in es.items()}
		if ec:
			desc['edge_colours'] = {k: self.colour(c) for k, c in ec.items()}
		(gn, n_arg), (ge, e_arg) = wide_n, wide_e
		if gn['k'] != 'same':
			desc[self.ch(['global_node_style', 'graph_node_style'])] = n_arg
			sh.update(gn=gn, n_arg=n_arg)
		if ge['k'] != 'same':
			desc[self.ch(['global_edge_style', 'graph_edge_style'])] = e_arg
			sh.update(ge=ge, e_arg=e_arg)
		self.given += [v[0] for v in list(ns.values()) + list(es.values())]
		self.given += [desc[t] for t in ('node_styles', 'node_colours', 'edge_styles', 'edge_colours') if t in desc]
		self.tables.append(ns)

		def ref(k):
			return dict(s=tok(k[0]), e=tok(k[1]), r='?' if len(k) == 2 else tok(k[2]))
		e = dict(op='append', g=g, nd=nd, ed=ed, gn=gn, ge=ge,
			ns=[dict(k=tok(n), v=v[1]) for n, v in ns.items()], nc=[dict(k=tok(n), v=esc(c)) for n, c in nc.items()],
			es=[dict(k=ref(k), v=v[1]) for k, v in es.items()], ec=[dict(k=ref(k), v=esc(c)) for k, c in ec.items()])
		graph = self.graphs[g]
		self.event(e, lambda: graph.append(desc))
		sh['nodes'] += [n for n in nodes if n not in sh['nodes']]
		sh['edges'] += [t for t in dict.fromkeys(triples) if t not in sh['edges']]
		sh['ns'].update(ns)
		sh['nc'].update(nc)
		sh['es'].update({self.target(k, triples): v for k, v in es.items()})
		sh['ec'].update({self.target(k, triples): v for k, v in ec.items()})

	def colour(self, c):
		return Colour(c) if self.coin(.25) else c

	def edge_ref(self, x):
		return x[:2] if self.coin(.4) else x

	def target(self, k, triples):
		if len(k) == 3:
			return k
		return [x for x in triples if x[:2] == k][-1]

	def again(self, g):
		"""a node or an edge for which there is an override is removed and comes back"""
		sh = self.shadow[g]
		nodes = [n for n in sh['nodes'] if n in sh['ns'] or n in sh['nc']]
		edges = [k for k in sh['edges'] if k in sh['es'] or k in sh['ec']]
		if not nodes + edges:
			return
		x = self.ch(edges if edges and (not nodes or self.coin()) else nodes)
		part = dict(edge=x) if x in edges else dict(node=x)
		if self.coin():
			self.render(g)
		if x in edges:
			self.disconnect(g, x)
		else:
			self.rm_node(g, x)
		if self.coin(.7):
			self.render(g)
		if all(e['res']['k'] == 'ok' for e in self.ev):
			self.append(g, **part)

	def rm_node(self, g, n=None):
		sh = self.shadow[g]
		if not sh['nodes']:
			return
		n = self.ch(sh['nodes']) if n is None else n
		graph = self.graphs[g]
		self.event(dict(op='rm_node', g=g, name=tok(n)), lambda: graph.remove_node(n))
		sh['nodes'].remove(n)
		sh['edges'] = [x for x in sh['edges'] if n not in x[:2]]

	def disconnect(self, g, k=None):
		sh = self.shadow[g]
		if not sh['edges']:
			return
		k = k or self.ch(sh['edges'])
		graph = self.graphs[g]
		self.event(dict(op='disconnect', g=g, key=edge_key(*k)), lambda: graph.edges_dict[k].remove_self())
		sh['edges'].remove(k)

	def looks(self):
		"""what every node and edge of every graph looks like now"""
		return {g: dict(n={tok(n.name): look(n.style, 'n') for n in graph.nodes}, e={key_token(k): look(x.style, 'e') for k, x in graph.edges_dict.items()})
			for g, graph in self.graphs.items()}

	def restyle(self, g):
		"""changes the style of one node or edge in place"""
		graph = self.graphs[g]
		some = [('n', tok(n.name), n) for n in graph.nodes if n.style is not None and id(n.style) not in self.held]
		edges = [('e', key_token(k), x) for k, x in graph.edges_dict.items() if x.style is not None and id(x.style) not in self.held]
		if not some + edges:
			return
		kind, key, obj = self.ch(edges if edges and (not some or self.coin()) else some)
		d = {k: v for k, v in self.style_dict(kind, 5).items() if 'colour' not in k} or dict(text_size=33)
		before, _ = guarded(self.looks)
		e = dict(op='restyle', g=g, c=kind, x=key, part=part(d, kind), before=before or {}, after={})

		def fn():
			obj.style.complement(d)
			e['after'] = self.looks()
		self.event(e, fn)

	def clone(self, sh, **kw):
		return dict({k: (v.copy() if isinstance(v, (list, dict)) else v) for k, v in sh.items()}, **kw)

	def copy(self, g):
		g2 = self.name()
		how = self.ch(['copy', 'deepcopy', 'pickle'])
		graph = self.graphs[g]

		def fn():
			self.graphs[g2] = graph.copy() if how == 'copy' else copy.deepcopy(graph) if how == 'deepcopy' else pickle.loads(pickle.dumps(graph))
		_, res = self.event(dict(op='copy', g=g, g2=g2, how=how), fn)
		if res['k'] == 'ok':
			# a style shared by several nodes is shared by the copies of these nodes
			for a, b in ((graph.nodes_dict, self.graphs[g2].nodes_dict), (graph.edges_dict, self.graphs[g2].edges_dict)):
				for k, x in a.items():
					if k in b and id(x.style) in self.held and b[k].style is not None:
						self.held[id(b[k].style)] = b[k].style
		self.shadow[g2] = self.clone(self.shadow[g])
		return g2 if res['k'] == 'ok' else None

	def build(self, g, ow=None, twice=True, description=None):
		"""a graph made from this one, or again from the description of it"""
		g2 = self.name()
		how = 'dict' if description is not None else self.ch(['graph', 'dict', 'append'])
		sh = self.shadow[g]
		needs = sh['nc'] or sh['es'] or sh['ec']
		ow = ow or ('y' if needs or self.coin() else 'n')
		graph = self.graphs[g]
		stylist = self.ch(['pensieve', 'random'])
		d = description
		if how == 'dict' and d is None:
			d = graph.__graph__()
			self.given += [d[t] for t in ('node_styles', 'node_colours', 'edge_styles', 'edge_colours') if isinstance(d.get(t), dict)]
			for x in list(d['nodes'].values()) + [x[2] for x in d['edges']]:
				if x.get('style') is not None:
					self.hold(x['style'])

		def fn():
			kw = dict(style_overwrite_allowed=ow == 'y', stylist=stylist)
			self.graphs[g2] = Graph(graph, **kw) if how == 'graph' else Graph(d, **kw) if how == 'dict' else Graph(**kw).append(graph)
		_, res = self.event(dict(op='build', g=g, g2=g2, ow=ow, how=how), fn)
		sh2 = self.clone(sh, ow=ow, stylist=stylist)
		self.known_only(sh2)
		self.shadow[g2] = sh2
		if how == 'dict' and twice and res['k'] == 'ok' and self.coin(.4):
			# the same description again
			self.build(g, twice=False, description=d)
			self.more.append(f'g{self.count}')
		return g2 if res['k'] == 'ok' else None

	def known_only(self, sh):
		# a converted graph gets its edges node by node
		sh['edges'] = [k for n in sh['nodes'] for k in sh['edges'] if k[0] == n]
		for t in ('ns', 'nc'):
			sh[t] = {k: v for k, v in sh[t].items() if k in sh['nodes']}
		for t in ('es', 'ec'):
			sh[t] = {k: v for k, v in sh[t].items() if k in sh['edges']}

	def sum(self, g, g2):
		a, b = self.clone(self.shadow[g]), self.clone(self.shadow[g2])
		self.known_only(a)
		self.known_only(b)
		if any(k in b[t] for t in ('ns', 'nc', 'es', 'ec') for k in a[t]):
			return None
		g3 = self.name()
		x, y = self.graphs[g], self.graphs[g2]

		def fn():
			self.graphs[g3] = x.add(y, add_values_function=lambda p, q: p)
		_, res = self.event(dict(op='sum', g=g, g2=g2, g3=g3), fn)
		self.shadow[g3] = dict(
			nodes=a['nodes'] + [n for n in b['nodes'] if n not in a['nodes']], edges=a['edges'] + [n for n in b['edges'] if n not in a['edges']],
			ns=dict(a['ns'], **{}) | b['ns'], nc=a['nc'] | b['nc'], es=a['es'] | b['es'], ec=a['ec'] | b['ec'], ow='n', stylist='pensieve',
			gn=dict(k='none'), ge=dict(k='none'), n_arg=None, e_arg=None
		)
		return g3 if res['k'] == 'ok' else None

	def twin(self, g, wide):
		"""a graph alike but without overrides"""
		graph, sh = self.graphs[g], self.shadow[g]
		kw = dict(node_style=copy.deepcopy(sh['n_arg'])) if wide and sh['n_arg'] is not None else {}
		t = Graph(stylist=sh['stylist'], style_overwrite_allowed=sh['ow'] == 'y', **kw)
		for n in graph.nodes:
			t.add_node(n.name, style=copy.deepcopy(n.style))
		for k in sh['edges']:
			# in the order in which they were made, which decides the first parent of a node
			e = graph.edges_dict[k]
			t.connect(k[0], k[1], id=k[2], value=e.value, style=copy.deepcopy(e.style))
		t.render()
		return t

	def render(self, g):
		graph, sh = self.graphs[g], self.shadow[g]
		if sh['ow'] == 'n' and (set(sh['nc']) & set(sh['nodes']) or (set(sh['es']) | set(sh['ec'])) & set(sh['edges'])):
			return
		made, res = guarded(lambda: (self.twin(g, False), self.twin(g, True)))
		e = dict(op='render', g=g, auton={}, autoe={}, looksn={}, lookse={}, text=['', ''])
		if made is None:
			self.event(e, lambda: [][0])
			return
		e['auton'] = {tok(n.name): look(n.style, 'n') for n in made[0].nodes}
		e['autoe'] = {key_token(k): look(x.style, 'e') for k, x in made[1].edges_dict.items()}

		def fn():
			a = graph.render().source
			e['looksn'] = {tok(n.name): look(n.style, 'n') for n in graph.nodes}
			e['lookse'] = {key_token(k): look(x.style, 'e') for k, x in graph.edges_dict.items()}
			b = graph.render().source
			e['text'] = [hashlib.sha1(x.encode()).hexdigest()[:10] for x in (a, b)]
		self.event(e, fn)

	def history(self, hid):
		return dict(id=hid, ev=self.ev,
			dern={esc(c): {k: v for k, v in look(NodeStyle(colour=c), 'n').items() if k in ('main', 'fill', 'border', 'text')} for c in COLOURS},
			dere={esc(c): {k: v for k, v in look(EdgeStyle(colour=c), 'e').items() if k in ('main', 'text')} for c in COLOURS})


def override_histories(rng, count):
	for k in range(count):
		gen = OverGen(rng)
		gs = [gen.new() for _ in range(rng.choice([1, 1, 2]))]
		for g in gs:
			if rng.random() < .1:
				gen.render(g)     # nothing in it yet
			for _ in range(rng.choice([1, 1, 2])):
				gen.append(g)
		for _ in range(rng.randrange(0, 7)):
			if any(e['res']['k'] != 'ok' for e in gen.ev):
				break
			op = rng.choice(['rm_node', 'disconnect', 'render', 'render', 'copy', 'build', 'sum', 'append', 'restyle', 'restyle', 'again', 'again'])
			g = rng.choice(gs)
			if op == 'sum':
				r = gen.sum(g, rng.choice(gs)) if len(gs) > 1 else None
				if r is not None and rng.random() < .7:
					gs.append(r)
					r = gen.build(r)
			elif op in ('copy', 'build'):
				r = getattr(gen, op)(g)
			else:
				getattr(gen, op)(g)
				r = None
			if r is not None:
				gs.append(r)
			gs += gen.more
			gen.more = []
		rng.shuffle(gs)
		for g in gs:
			if any(e['res']['k'] != 'ok' for e in gen.ev):
				break
			gen.render(g)
			if gen.coin(.3):
				gen.restyle(g)
				if gen.ev[-1]['res']['k'] == 'ok':
					gen.render(g)
		yield gen.history(f'overrides-{k}')


class OverReplay:
	"""leads real graphs through a transition of OverrideModel: the path to it, the call itself, and renderings of every graph"""
	def __init__(self, rng):
		self.rng = rng
		self.states = {}

	def history(self, t, k):
		gen = OverGen(self.rng)
		self.g = {}
		self.edge = {}
		a, b, z = self.rng.sample(gen.names, 3)
		self.names = dict(a=a, b=b, z=z)
		self.ids = dict(n=None, x=gen.ch([0, 'x', '', 1]))
		for e in path(self.states, t['at']) + [t['e']]:
			self.step(gen, e)
			if gen.ev[-1]['res']['k'] != 'ok':
				return gen.history(f'{k}')
		gs = list(gen.graphs)
		self.rng.shuffle(gs)
		if t['e']['op'] == 'sum':
			gs.append(gen.build(f'g{gen.count}'))     # what the sum shows with the permission
		for g in gs:
			if g is not None and gen.ev[-1]['res']['k'] == 'ok':
				gen.render(g)
		return gen.history(f'{k}')

	def triple(self, x):
		return self.names[x['s']], self.names[x['e']], self.ids[x['r']]

	def step(self, gen, e):
		op = e['op']
		if op == 'new':
			self.g[e['g']] = gen.new(e['gn']['k'], e['ge']['k'], e['ow'])
			return
		g = self.g[e['g']]
		if op == 'append':
			styled = lambda x, kind: gen.preset(kind, 1) if 'main' in x['look'] else None
			nodes = {self.names[x['name']]: styled(x, 'n') for x in e['nd']}
			edges = [(self.triple(x), styled(x, 'e'), False) for x in e['ed']]
			for x in e['ed']:
				self.edge[f"{x['s']}>{x['e']}#{x['r']}"] = self.triple(x)
			gen.describe(g, nodes, edges,
				{self.names[x['k']]: gen.node_style() for x in e['ns']}, {self.names[x['k']]: gen.ch(COLOURS) for x in e['nc']},
				{gen.edge_ref(self.triple(x['k'])): gen.edge_style() for x in e['es']}, {gen.edge_ref(self.triple(x['k'])): gen.ch(COLOURS) for x in e['ec']},
				gen.wide('n', k=e['gn']['k']), gen.wide('e', k=e['ge']['k']))
		elif op == 'rm_node':
			gen.rm_node(g, self.names[e['name']])
		elif op == 'disconnect':
			gen.disconnect(g, self.edge[e['key']])
		elif op == 'render':
			gen.render(g)
		elif op == 'copy':
			gen.copy(g)
		elif op == 'build':
			gen.build(g, e['ow'])
		elif op == 'sum':
			gen.sum(g, self.g[e['g2']])
