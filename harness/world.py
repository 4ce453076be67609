"""Executes operations (given as token records) on real graphs and records one event per call."""
from core import *
from colouration import Colour


def conv_upper(x):
	return str(x).upper() + '!'


def conv_edge(x):
	return '<' + str(x) + '>'


# an edge entry of the wrong length: how much of a right one it keeps, and what follows
MALFORMED = {1: (1, []), 2: (0, []), 3: (3, [None]), 4: (3, [4]), 5: (3, [{}]), 6: (3, [None, None]), 7: (2, [None, None])}
BAD_NAMES = {'bad:float': 1.5, 'bad:none': None, 'bad:tuple': ('a', 1), 'bad:bytes': b'a', 'bad:list': ['a'], 'bad:obj': object()}


def add_tagged(x, y):
	return Tagged(x, y)


OVERRIDES = ['node_styles', 'edge_styles', 'node_colours', 'edge_colours', 'global_node_style', 'global_edge_style']


def pending(g):
	"""the overrides a graph describes, as one token"""
	def show(x):
		if isinstance(x, dict):
			return [[repr(k), show(v)] for k, v in x.items()]
		return x.get_graphviz_str() if isinstance(x, (NodeStyle, EdgeStyle)) else Colour(x).hexadecimal if isinstance(x, Colour) else repr(x)
	d = g.__graph__()
	return hashlib.sha1(repr([show(d.get(t)) for t in OVERRIDES]).encode()).hexdigest()[:10]


class Described:
	"""an object that is no graph but can be described as one"""
	def __init__(self, described):
		self.described = described

	def __graph__(self):
		return self.described if isinstance(self.described, dict) else self.described.__graph__()


# the ways of handing over what is to be appended
# the ways of giving several nodes
COLLECTIONS = dict(list=list, tuple=tuple, set=set, keys=dict.fromkeys, none=lambda nodes: list(nodes) or None)
NOTHING = dict(nodes=[], edges=[])


def halves(x):
	"""a description as a list of two: first what it says of nodes, then the rest"""
	return [dict(nodes=x['nodes'], edges=[]), dict(x, nodes=[])] if isinstance(x, dict) else [x, NOTHING]


FORMS = dict(
	itself=lambda x: x, list=lambda x: [x], tuple=lambda x: (x,), described=Described, halves=halves,
	last=lambda x: [NOTHING, x], nested=lambda x: (Described(NOTHING), [[x]], [])
)


class World:
	def __init__(self, log=True):
		self.reg = Registry()
		self.graphs = {}
		self.snaps = {}
		self.events = []
		self.gone_nodes = []     # removed node objects, in order of removal (the model's `gone`)
		self.gone_edges = []
		self.gone_home = {}
		self.log = log
		self.watch_overrides = False     # whether pending overrides belong to what is watched of every graph

	# ------------------------------------------------------------ helpers
	def obj(self, uid):
		return self.reg.keep[int(uid[1:])]

	def name_obj(self, g, name_token, by='name'):
		name = untok(name_token)
		own = self.graphs[g].nodes_dict.get(name)
		if by == 'foreign':
			# a node object of that name which is not this graph's: of another graph, or removed
			others = [x for x in self.reg.keep if isinstance(x, Node) and x is not own and tok(x.name) == name_token]
			return others[-1] if others else own
		return self.graphs[g].nodes_dict[name] if by == 'obj' else derived(name) if by == 'derived' else name

	def edge_obj(self, g, key):
		for i, node in enumerate(self.graphs[g].nodes):
			for k, e in node.outward_edges_dict.items():
				if key_token(k) == key:
					return e
		raise LookupError(key)

	def item(self, g, c, x):
		if c == 'n':
			return self.graphs[g].nodes_dict[untok(x)]
		return self.edge_obj(g, x)

	def attrs(self, a, kind, sd=False):
		kw = {}
		if a['lab'] != 'n':
			kw['label'] = untok(a['lab'])
		if a['val'] != 'n':
			kw['value'] = untok(a['val'])
		if a['sty'] != '-':
			kw['style'] = make_style(kind, a['sty'], as_dict=sd)
		for p, t in dict(a['par'] or {}).items():
			kw[p] = untok(t)
		if a.get('tip', 'n') != 'n':
			kw['tooltip'] = untok(a['tip'])
		return kw

	def describe(self, e):
		"""a dictionary description from an event's nd / ed lists"""
		if e.get('nl'):
			nodes = [untok(x['name']) for x in e['nd']]
		else:
			nodes = {untok(x['name']): self.attrs(x['a'], 'n', x.get('sd', False)) for x in e['nd']}
		edges = []
		for x in e['ed']:
			if x['bad']:
				edges.append(([untok(x['s']), untok(x['e'])] + [{}, None, 4])[:MALFORMED[int(x['bad'])][0]] + MALFORMED[int(x['bad'])][1])
			elif x.get('two'):
				edges.append((untok(x['s']), untok(x['e'])))
			else:
				d = self.attrs(x['a'], 'e', x.get('sd', False))
				if x['r'] != 'n':
					d['id'] = untok(x['r'])
				edges.append([untok(x['s']), untok(x['e']), d])
		put = tuple if e.get('tuples') else list
		return dict(nodes=put(nodes) if e.get('nl') else nodes, edges=put(put(x) for x in edges) if e.get('tuples') is not None else edges)

	# ------------------------------------------------------------ operations
	def call(self, e):
		"""a thunk performing the event's call"""
		op, gid = e['op'], e.get('g')
		g = self.graphs.get(gid)
		if op == 'new':
			kw = dict(strict=e['strict'], ordering=e['ord'], style_overwrite_allowed=e['ow'] == 'y')
			if e.get('conv'):
				kw.update(node_label_converter=conv_upper, edge_label_converter=conv_edge)
			kw.update(e.get('kw') or {})

			def fn():
				self.graphs[gid] = Graph(**kw)
				return self.graphs[gid]
			return fn
		if op == 'add_node':
			name = BAD_NAMES[e['name']] if e['kind'] == 'bad' else untok(e['name'])
			if e.get('derived'):
				name = derived(name)
			kw = self.attrs(e['a'], 'n', e.get('sd', False))
			if e['how'] == 'ctor':
				return lambda: Node(graph=g, name=name, **kw)
			if e['pol'] != 'default':
				kw['if_node_exists'] = e['pol']
			return lambda: g.add_node(name, **kw)
		if op == 'add_obj':
			node = self.obj(e['o'])
			return lambda: g.add_node(node)
		if op == 'rm_node':
			target = self.name_obj(gid, e['name'], e['by'])
			return lambda: g.remove_node(target)
		if op == 'strip':
			node = self.name_obj(gid, e['name'], 'obj')
			return lambda: node.remove_edges()
		if op == 'connect':
			kw = self.attrs(e['a'], 'e', e.get('sd', False))
			if e['r'] != 'n':
				kw['id'] = untok(e['r'])
			if e['how'] == 'ctor':
				s, t = self.name_obj(gid, e['s'], 'obj'), self.name_obj(gid, e['e'], 'obj')
				return lambda: Edge(graph=g, start=s, end=t, **kw)
			if e['pol'] != 'default':
				kw['if_edge_exists'] = e['pol']
			if e['how'] == 'to':
				s, t = self.name_obj(gid, e['s'], 'obj'), self.name_obj(gid, e['e'], e['eb'])
				return lambda: s.connect_to(t, **kw)
			if e['how'] == 'from':
				s, t = self.name_obj(gid, e['s'], e['sb']), self.name_obj(gid, e['e'], 'obj')
				return lambda: t.connect_from(s, **kw)
			s = BAD_NAMES[e['s']] if e['s'] in BAD_NAMES else self.name_obj(gid, e['s'], e['sb'])
			t = BAD_NAMES[e['e']] if e['e'] in BAD_NAMES else self.name_obj(gid, e['e'], e['eb'])
			return lambda: g.connect(s, t, **kw)
		if op == 'disconnect':
			edge = self.obj(e['o']) if e.get('o') else self.edge_obj(gid, e['key'])
			if e['how'] == 'self':
				return lambda: edge.remove_self()
			return lambda: g.disconnect(edge)
		if op == 'freeze':
			item = self.item(gid, e['c'], e['x'])
			return (lambda: item.freeze()) if e['on'] else (lambda: item.unfreeze())
		if op == 'set':
			item = self.item(gid, e['c'], e['x'])
			f, t = e['f'], e['v']
			if f == 'val' and e.get('how') == 'touch':
				def fn(): item.value.append(1)
			elif f == 'val':
				def fn(): item.value = untok(t)
			elif f == 'lab':
				def fn(): item.label = untok(t)
			elif f == 'sty':
				style = make_style(e['c'], t, as_dict=e.get('sd', False))
				def fn(): item.style = style
			else:
				if e.get('how') == 'set':
					def fn(): item.set(f, untok(t))
				else:
					def fn(): item[f] = untok(t)
			return fn
		if op == 'gset':
			item = self.obj(e['o'])
			f, t = e['f'], e['v']

			def fn():
				if f == 'frz':
					item.freeze() if t == 'y' else item.unfreeze()
				elif f == 'val':
					item.value = untok(t)
				else:
					item.label = untok(t)
			return fn
		if op == 'restyle':
			style = self.item(gid, e['c'], e['x']).style
			how = e['how']

			def fn():
				if how == 'colour':
					style.colour = e['col']
				elif how == 'reset':
					style.reset_colours()
					style.colour = e['col']
				else:
					style.complement({'text_size': e['ts']})
			return fn
		if op == 'copy':
			how = e['how']

			def fn():
				if how == 'copy':
					c = g.copy()
				elif how == 'deepcopy':
					c = copy.deepcopy(g)
				elif how == 'copy.copy.copy':
					c = g.copy().copy()
				else:
					c = pickle.loads(pickle.dumps(g, protocol=int(how[6:])))
				self.graphs[e['g2']] = c
				return c
			return fn
		if op == 'filter':
			nodes = COLLECTIONS[e.get('as', 'list')](self.name_obj(gid, n, b) for n, b in zip(e['names'], e['by']))
			kw = {}
			if e['dir'] != 'default':
				kw['direction'] = e['dir']
			if e['typ'] != 'default':
				kw['filter_type'] = e['typ']

			def fn():
				self.graphs[e['g2']] = g.filter(nodes, **kw)
				return self.graphs[e['g2']]
			return fn
		if op == 'append':
			desc = FORMS[e.get('form', 'itself')](self.describe(e))
			return lambda: g.append(desc)
		if op == 'append_graph':
			src = FORMS[e.get('form', 'itself')](self.graphs[e['g2']])
			return lambda: g.append(src)
		if op == 'build':
			how = e['how']

			def fn():
				if how == 'graph':
					r = Graph(g)
				elif how == 'described':
					r = Graph(Described(g))
				elif how == 'dict':
					r = Graph(g.__graph__())
				elif how == 'from_dict':
					r = Graph.from_dict(g.__graph__())
				else:
					r = Graph().append(g.__graph__())
				self.graphs[e['g2']] = r
				return r
			return fn
		if op == 'sum':
			other = self.graphs[e['g2']]

			def fn():
				if e['fn'] == 'plus':
					r = g + other
				elif e['fn'] == 'default':
					r = g.add(other)
				else:
					r = g.add(other, add_values_function=add_tagged)
				self.graphs[e['g3']] = r
				return r
			return fn
		if op == 'render':
			return lambda: g.render(**(e.get('kw') or {}))
		if op == 'dot':
			return lambda: g.get_graphviz_str()
		raise ValueError(op)

	def do(self, e, extra=None):
		"""performs one operation and appends the event; returns (value, outcome)"""
		pre = self.snaps
		try:
			fn = self.call(e)
		except (LookupError, KeyError) as exc:
			raise RuntimeError(f'driver error: {e} {exc!r}')
		value, res = guarded(fn)
		res['o'] = self.reg(value) if isinstance(value, (Node, Edge, Graph)) else '-'
		e = dict(e)
		e['res'] = res
		self.finish(e, value, extra)
		return value, res

	def observe(self, e, fn, seconds=OP_SECONDS):
		"""an event whose answer is an observation, not a mutation"""
		value, res = guarded(fn, seconds)
		res['o'] = '-'
		e = dict(e)
		e['res'] = res
		e['obs'] = value if res['k'] == 'ok' else {}
		self.finish(e, None)
		return value

	def finish(self, e, value, extra=None):
		post, gone = {}, {}
		for gid, g in self.graphs.items():
			snap = safe_snapshot(g, self.reg)
			if self.watch_overrides and snap['ok']:
				over, _ = guarded(lambda: pending(g))
				snap['p']['set']['over'] = over or '?'
			old = self.snaps.get(gid)
			if snap != old:
				post[gid] = snap
				if old is not None and old['ok'] and snap['ok']:
					left_n = [x['o'] for n, x in old['i']['n'].items() if x['o'] not in [y['o'] for y in snap['i']['n'].values()]]
					left_e = [o for o in old['i']['e'] if o not in snap['i']['e']]
					gone[gid] = dict(
						n=[[o, self.reg(self.obj(o).graph)] for o in left_n], e=[[o, self.reg(self.obj(o).graph)] for o in left_e]
					)
					self.gone_nodes += [self.obj(o) for o in left_n]
					self.gone_home.update({o: gid for o in left_n})
					self.gone_edges += [self.obj(o) for o in left_e]
				self.snaps[gid] = snap
		self.gone_nodes = [n for n in self.gone_nodes if n.graph is None]
		e['post'] = post
		e['gone'] = gone
		if extra:
			e.update(extra(value))
		self.events.append(e)

	def history(self, hid):
		return dict(id=hid, ev=self.events)
